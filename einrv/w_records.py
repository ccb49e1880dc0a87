"""Structures carried through every construct, and mismatched structures (C08)."""
from __future__ import annotations

from dataclasses import dataclass, is_dataclass

import numpy

from . import run
from .ctx import Skip


@dataclass(frozen=True)
class A2:
    x: object
    y: object


@dataclass(frozen=True)
class B2:  # the same fields as A2
    x: object
    y: object


@dataclass
class C3:
    keys: object
    hi: object
    a: object


CLS = {A2: ("x", "y"), B2: ("x", "y"), C3: ("keys", "hi", "a")}
KEYS = ["a", "b", "x", "y", "keys", "values", "items", "get", "0", "long name", "z"]


# spec: ("i"|"f"|"b", dims) | ("t"|"l", subs) | ("d", keys, subs) | ("c", cls, subs)
def spec(r, budget, top=True):
    x = r.random()
    if budget <= 1 or (not top and x < 0.35):
        return (r.choice("iifb"), tuple(r.choice([0, 1, 2, 3]) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))))
    k = r.choice("ttldc")
    if k == "c":
        cls = r.choice(list(CLS))
        return ("c", cls, [spec(r, budget // len(CLS[cls]), False) for _ in CLS[cls]])
    n = r.choice([1, 2, 2, 3, 3, 4])
    subs = [spec(r, max(budget // n, 1), False) for _ in range(n)]
    if k == "d":
        return ("d", r.sample(KEYS, n), subs)
    return (k, subs)


def subs_of(s):
    return [] if s[0] in "ifb" else s[-1]


def build(s, leaf, path=()):
    if s[0] in "ifb":
        return leaf(s, path)
    kids = [build(q, leaf, (*path, k)) for k, q in enumerate(s[-1])]
    if s[0] == "t":
        return tuple(kids)
    if s[0] == "l":
        return kids
    if s[0] == "d":
        return dict(zip(s[1], kids))
    return s[1](**dict(zip(CLS[s[1]], kids)))


def leaves(s, path=()):
    if s[0] in "ifb":
        yield path, s
    else:
        for k, q in enumerate(s[-1]):
            yield from leaves(q, (*path, k))


def step(s, v, k):
    if s[0] in "tl":
        return v[k]
    if s[0] == "d":
        return v[s[1][k]]
    return getattr(v, CLS[s[1]][k])


def at(s, v, path):
    for k in path:
        v = step(s, v, k)
        s = s[-1][k]
    return v


def shape_error(E, s, v, where="value"):
    """the Python structure of v, compared with s"""
    if s[0] in "ifb":
        import ein

        want = ein.Vec if s[1] else ein.Scalar
        return None if isinstance(v, want) else f"{where} is {type(v).__name__}, expected {want.__name__}"
    if s[0] in "tl":
        if not isinstance(v, tuple) or len(v) != len(s[1]):
            return f"{where} is {type(v).__name__}, expected a tuple of {len(s[1])}"
    elif s[0] == "d":
        if type(v) is not dict or list(v) != list(s[1]):
            return f"{where} is {v if type(v) is not dict else list(v)}, expected keys {s[1]}"
    elif type(v) is not s[1]:
        return f"{where} is a {type(v).__name__}, expected {s[1].__name__}"
    for k, q in enumerate(s[-1]):
        e = shape_error(E, q, step(s, v, k), f"{where}.{k}")
        if e:
            return e
    return None


def ident(s, path):
    return sum((k + 1) * 5**d for d, k in enumerate(path)) % 89


def instance(E, s, t):
    """the structure whose leaves encode their own path and t"""

    def leaf(q, path):
        n = ident(s, path)

        def scalar(off):
            if q[0] == "i":
                return t + off + n * 100
            if q[0] == "f":
                return (t + off + n * 100).float() + 0.5
            return (t + off + n % 3) > 3

        if not q[1]:
            return scalar(0)
        if len(q[1]) == 1:
            return E["array"](lambda e: scalar(e * 7), size=q[1][0])
        if len(q[1]) == 2:
            return E["array"](lambda e, g: scalar(e * 7 + g * 13), size=tuple(q[1]))
        return E["array"](lambda e, g, h: scalar(e * 7 + g * 13 + h), size=tuple(q[1]))

    return build(s, leaf)


def value(s, path, q, t):
    n = ident(s, path)

    def scalar(off):
        if q[0] == "i":
            return t + off + n * 100
        if q[0] == "f":
            return float(t + off + n * 100) + 0.5
        return t + off + n % 3 > 3

    if not q[1]:
        return scalar(0)
    if len(q[1]) == 1:
        return [scalar(e * 7) for e in range(q[1][0])]
    return [[scalar(e * 7 + g * 13) for g in range(q[1][1])] for e in range(q[1][0])]


def zipwith(E, s, a, b):
    """elementwise maximum of two instances"""

    def leaf(q, path):
        x, y = at(s, a, path), at(s, b, path)
        f = (lambda p, r: p | r) if q[0] == "b" else (lambda p, r: p.max(r))
        if not q[1]:
            return f(x, y)
        if len(q[1]) == 1:
            return E["array"](lambda e: f(x[e], y[e]))
        return E["array"](lambda e, g: f(x[e, g], y[e, g]))

    return build(s, leaf)


def clamp(t, n):
    return max(0, min(t, n - 1))


def mixer(r, s):
    """a way to build a structure out of the components of two others: the expression, and which of them a leaf is from"""
    pick = {}

    def plan(q, path, top):
        if q[0] in "ifb" or (not top and r.random() < 0.4):
            pick[path] = r.random() < 0.5
        else:
            for k, sub in enumerate(q[-1]):
                plan(sub, (*path, k), False)

    plan(s, (), True)

    def mix(a, b):
        def go(q, path, x, y):
            if path in pick:
                return x if pick[path] else y
            kids = [go(sub, (*path, k), step(q, x, k), step(q, y, k)) for k, sub in enumerate(q[-1])]
            if q[0] in "tl":
                return tuple(kids)
            if q[0] == "d":
                return dict(zip(q[1], kids))
            return q[1](**dict(zip(CLS[q[1]], kids)))

        return go(s, (), a, b)

    def from_a(path):
        while path not in pick:
            path = path[:-1]
        return pick[path]

    return mix, from_a


def layer(r, E, s, F, g, cur):
    """leaf cur[0] of F(t) is that of the instance g(t); make another such pair by going through a construct"""
    array, fold, where, wrap = E["array"], E["fold"], E["where"], E["wrap"]
    n, m = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
    k = r.choice(["index", "index", "matrix", "rows", "slice", "where", "wherevec", "concat", "concat3", "foldstep", "foldkeep",
                  "foldswitch", "reduce", "or_empty", "assume", "pairs", "foldvec", "let", "monoid", "reduce_rows", "where_py",
                  "cube", "foldpair", "cross", "cross_fold", "cross_get", "cross_acc", "cross_step", "cross_where"])
    if k.startswith("cross"):
        mix, from_a = mixer(r, s)
        here = lambda x, y: g(x) if from_a(cur[0]) else g(y)
        d = r.choice([1, 1, 2])
        if k == "cross":
            # (through a selection, after which lists are tuples)
            return k, lambda t: where(t == t, mix(F(t), F(t + d)), F(t)), lambda t: here(t, t + d)
        if k == "cross_fold":
            return (k, lambda t: mix(fold(F(t), lambda i, a: F(i + t), count=n), fold(F(t + d), lambda i, a: F(i + t + d), count=n)),
                    lambda t: here(n - 1 + t, n - 1 + t + d))
        if k == "cross_get":
            def get2(t):
                v = array(lambda i: F(i), size=n)
                return mix(v[t], v[t + d])

            return k, get2, lambda t: here(clamp(t, n), clamp(t + d, n))
        if k == "cross_acc":
            return (k, lambda t: fold((F(t), F(t + d)), lambda i, a: (mix(a[0], a[1]), a[1]), count=n)[0],
                    lambda t: here(t, t + d))
        if k == "cross_step":
            return k, lambda t: fold(F(t), lambda i, a: mix(a, F(i + t + d)), count=n), lambda t: here(t, n - 1 + t + d)
        return (k, lambda t: mix(where(t > 1, F(t), F(t + 1)), where(t < 2, F(t + d), F(t))),
                lambda t: here(t if t > 1 else t + 1, t + d if t < 2 else t))
    if k == "index":
        return k, lambda t: array(lambda i: F(i), size=n)[t], lambda t: g(clamp(t, n))
    if k == "matrix":
        return k, lambda t: array(lambda i, j: F(i + j), size=(n, m))[t, t - 1], lambda t: g(clamp(t, n) + clamp(t - 1, m))
    if k == "rows":
        return k, lambda t: array(lambda i: array(lambda j: F(i - j), size=m), size=n)[t][1], lambda t: g(clamp(t, n) - clamp(1, m))
    if k == "cube":
        return (k, lambda t: array(lambda i, j, l: F(i + j - l), size=(n, m, 2))[t, 1][t],
                lambda t: g(clamp(t, n) + clamp(1, m) - clamp(t, 2)))
    if k == "slice":
        return k, lambda t: array(lambda i, j: F(i + j), size=(n, m))[:, t][1], lambda t: g(clamp(1, n) + clamp(t, m))
    if k == "where":
        return k, lambda t: where(t > 1, F(t), F(t + 1)), lambda t: g(t) if t > 1 else g(t + 1)
    if k == "where_py":
        b = r.random() < 0.5
        return k, lambda t: where(b, F(t), F(t + 1)), lambda t: g(t) if b else g(t + 1)
    if k == "wherevec":
        return (k, lambda t: where(t < 2, array(lambda i: F(i), size=n), array(lambda i: F(i + 2), size=n))[t],
                lambda t: g(clamp(t, n) + (0 if t < 2 else 2)))
    if k == "concat":
        return (k, lambda t: array(lambda i: F(i), size=n).concat(array(lambda i: F(i + 5), size=m))[t],
                lambda t: g(clamp(t, n + m) if clamp(t, n + m) < n else clamp(t, n + m) - n + 5))
    if k == "concat3":
        def h(t):
            p = clamp(t, n + m + 1)
            return g(p if p < n else 3 if p == n else p - n - 1 + 6)

        return (k, lambda t: E["concat"](array(lambda i: F(i), size=n), array(lambda i: F(wrap(3)), size=1),
                                         array(lambda i: F(i + 6), size=m))[t], h)
    if k == "foldstep":
        return k, lambda t: fold(F(wrap(9)), lambda i, a: F(i + t), count=n), lambda t: g(n - 1 + t)
    if k == "foldkeep":
        return k, lambda t: fold(F(t), lambda i, a: a, count=n), g
    if k == "foldpair":
        return k, lambda t: fold((F(t), F(t + 1)), lambda i, a: (a[1], a[0]), count=n)[0], lambda t: g(t + n % 2)
    if k == "foldswitch":
        return (k, lambda t: fold(F(t), lambda i, a: where(i < 1, F(i + 2), a), count=n), lambda t: g(2))
    if k == "foldvec":
        return (k, lambda t: fold(array(lambda i: F(i), size=3), lambda c, a: array(lambda i: a[i + 1], size=3), count=n)[t],
                lambda t: g(clamp(clamp(t, 3) + n, 3)))
    if k == "reduce":
        # a maximum of instances, which grow with t
        return (k, lambda t: array(lambda i: F(i + t), size=n).reduce(instance(E, s, wrap(-(10**6))), lambda a, b: zipwith(E, s, a, b)),
                lambda t: max(g(i + t) for i in range(n)))
    if k == "reduce_rows":
        return (k, lambda t: array(lambda q: array(lambda i: F(i + q), size=n).reduce(
            instance(E, s, wrap(-(10**6))), lambda a, b: zipwith(E, s, a, b)), size=3)[t],
            lambda t: max(g(i + clamp(t, 3)) for i in range(n)))
    if k == "monoid":
        return (k, lambda t: E["Monoid"](instance(E, s, wrap(-(10**6))), lambda a, b: zipwith(E, s, a, b)).fold(lambda i: F(i + t), count=n),
                lambda t: max(g(i + t) for i in range(n)))
    if k == "or_empty":
        e = r.random() < 0.5
        return (k, lambda t: array(lambda i: F(i), size=0 if e else n).or_empty(t, F(t + 3)),
                lambda t: g(t + 3) if e else g(clamp(t, n)))
    if k == "assume":
        return k, lambda t: array(lambda i: F(i), size=n).assume(array(lambda i: wrap(0), size=n))[t], lambda t: g(clamp(t, n))
    if k == "pairs":
        return (k, lambda t: array(lambda i: {"p": (F(i), F(i + 1)), "q": array(lambda j: F(i + j), size=m)}, size=n)[t]["p"][1],
                lambda t: g(clamp(t, n) + 1))
    return "let", lambda t: (lambda v: where(t > 0, v, v))(F(t)), g


def roundtrip(c, backends):
    r = c.rng("rec")
    E = run.namespace()
    s = spec(r, r.choice([2, 3, 4, 6]))
    if s[0] in "ifb":
        s = ("t", [s])
    F, g = (lambda t: instance(E, s, t)), (lambda t: t)
    trail, cur = [], [()]
    depth = r.choice([1, 1, 2, 2, 3])
    if len(list(leaves(s))) > (9, 8, 4, 3)[depth]:
        depth = 1
    for _ in range(depth):
        k, F, g = layer(r, E, s, F, g, cur)
        trail.append(k)
    label = f"{s} through {trail}"
    T = r.choice([1, 3, 4])
    ls = list(leaves(s))
    todo = ls if len(ls) <= 2 else r.sample(ls, 2)
    info = dict(structure=str(s), through=trail)
    with c.observing():
        try:
            v = F(E["wrap"](1))
        except Exception as e:
            c.violation(f"{label}: building raised {type(e).__name__}: {str(e)[:200]}", info)
            c.event("evaluations")
            return
    e = shape_error(E, s, v)
    c.event("structures")
    c.event("evaluations")
    for k in trail:
        c.event("through:" + k)
    if e:
        c.violation(f"{label}: structure: {e}", info)
        return
    for path, q in todo:
        be = r.choice(backends)
        cur[0] = path
        exp = [value(s, path, q, g(t)) for t in range(T)]
        ty = ("v", T, run_nd(q))
        scalar = r.random() < 0.3
        if scalar:
            exp, ty = value(s, path, q, g(1)), run_nd(q)

        def fun():
            if scalar:
                return at(s, F(E["wrap"](1)), path)
            return E["array"](lambda t: at(s, F(t), path), size=T)

        with c.observing():
            st, d = run.observe(fun, {}, {}, be, "wrap", exp, ty, None)
        c.event("evaluations")
        c.event("leaves:" + be)
        if st != "ok":
            c.violation(f"{be}: {label}: component {path}: {st}: {d}", dict(info, component=list(path), backend=be, expected=str(exp)))
            return
    c.seen(str(s), trail)
    c.sample(info)


def run_nd(q):
    from .lang import nd

    return nd(list(q[1]), q[0])


# ---------------------------------------------------------------- mismatches
def mutants(s, r):
    """(what, structure that differs from s)"""
    k = s[0]
    if k in "ifb":
        if s[1]:
            yield "rank", (k, s[1][1:])
        yield "rank", (k, (*s[1], 2))
        for o in "ifb":
            if o != k:
                yield "kind", (o, s[1])
        yield "wrapped", ("t", [s])
        return
    subs = s[-1]
    re_ = lambda new: (k, new) if k in "tl" else (k, s[1], new)
    for i, q in enumerate(subs):
        for what, m in mutants(q, r):
            yield what, re_([*subs[:i], m, *subs[i + 1:]])
    if k in "tl":
        yield "arity", (k, [*subs, ("i", ())])
        if len(subs) > 1:
            yield "arity", (k, subs[:-1])
            yield "nesting", (k, [subs[0], (k, subs[1:])])
            yield "nesting", (k, [(k, subs[:-1]), subs[-1]])
        yield "dict for tuple", ("d", [str(i) for i in range(len(subs))], subs)
    if k == "d":
        free = [x for x in KEYS if x not in s[1]]
        if free:
            yield "label", ("d", [free[0], *s[1][1:]], subs)
            yield "extra label", ("d", [*s[1], free[-1]], [*subs, ("i", ())])
        yield "tuple for dict", ("t", subs)
        if len(subs) > 1:
            yield "missing label", ("d", s[1][:-1], subs[:-1])
    if k == "c":
        if s[1] is A2:
            yield "class", ("c", B2, subs)
        if s[1] is B2:
            yield "class", ("c", A2, subs)
        yield "dict for class", ("d", list(CLS[s[1]]), subs)
        yield "tuple for class", ("t", subs)


def mismatches(c):
    r = c.rng("mis")
    E = run.namespace()
    array, fold, where, wrap, concat = (E[k] for k in ("array", "fold", "where", "wrap", "concat"))
    s = spec(r, r.choice([2, 3, 4, 6]))
    if s[0] in "ifb":
        s = ("t", [s])
    ms = list(mutants(s, r))
    what, m = r.choice(ms)
    S, X = (lambda t: instance(E, s, t)), (lambda t: instance(E, m, t))
    if r.random() < 0.5:
        S, X = X, S
    forms = {
        "where": lambda: where(wrap(2) > 1, S(wrap(0)), X(wrap(1))),
        "fold": lambda: fold(S(wrap(0)), lambda i, a: X(i), count=2),
        "concat": lambda: array(lambda i: S(i), size=2).concat(array(lambda i: X(i), size=2)),
        "std concat": lambda: concat(array(lambda i: S(i), size=2), array(lambda i: S(i), size=2), array(lambda i: X(i), size=2)),
        "reduce to": lambda: array(lambda i: S(i), size=2).reduce(S(wrap(0)), lambda a, b: X(wrap(1))),
        "reduce identity": lambda: array(lambda i: S(i), size=2).reduce(X(wrap(0)), lambda a, b: a),
        "where in array": lambda: array(lambda i: where(i > 1, S(i), X(i)), size=2),
        "fold from array": lambda: fold(array(lambda i: S(i), size=2), lambda k, a: array(lambda i: X(i), size=2), count=2),
        "where of arrays": lambda: where(wrap(2) > 1, array(lambda i: S(i), size=2), array(lambda i: X(i), size=2)),
        "or_empty": lambda: array(lambda i: S(i), size=2).or_empty(0, X(wrap(1))),
        "Monoid": lambda: E["Monoid"](S(wrap(0)), lambda a, b: X(wrap(1))).fold(lambda i: S(i), count=2),
    }
    for name in r.sample(sorted(forms), 4):
        # the same form with equal structures is accepted
        both = forms[name]
        X0 = X
        with c.observing():
            try:
                X = S
                both()
                ok = True
            except Exception as e:
                ok = False
                c.violation(f"{name} of equal structures {s} raised {type(e).__name__}: {str(e)[:150]}", dict(structure=str(s), form=name))
            X = X0
            try:
                both()
                raised = False
            except RecursionError:
                raised = False
            except Exception:
                raised = True
        c.event("evaluations")
        c.event("mismatch:" + what)
        if not raised:
            c.violation(f"{name} accepted {s} with {m} ({what})", dict(structure=str(s), other=str(m), form=name, what=what))
    c.seen(str(s), str(m))
    c.sample(dict(structure=str(s), other=str(m), what=what))

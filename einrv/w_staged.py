"""Histories of calls of staged functions, each call judged as if it were the first (C13)."""
from __future__ import annotations

import contextlib
import io
import math
import warnings

import numpy

from . import run, shadow
from .ctx import Skip
from .idioms import IDIOMS
from .lang import nd
from .w_idioms import DT, NAMES, draw, expected, real
from .w_programs import LAYOUTS, as_inputs


def vec(x):
    return hasattr(x, "size")


def each(E, f, *xs):
    if vec(xs[0]):
        return E.array(lambda i: each(E, f, *(x[i] for x in xs)))
    return f(*xs)


def total(E, x):
    return E.fold(x[0] - x[0], lambda i, a: a + x[i])


# bodies fine for many types of arguments: (name, number of arguments, body(E, const, *args))
def combine(E, k, a, b):
    return each(E, lambda x, y: x + x - y, a, b)


def choose(E, k, c, a, b):
    return E.where(c, a, b)


def element(E, k, a, i):
    return a[i]


def reverse(E, k, a):
    n = a.size(0)
    return E.array(lambda i: a[n - 1 - i], size=n)


def square(E, k, a):
    return each(E, lambda x: x * x - x, a)


def lengths(E, k, a, b):
    return a.size(0) * 10 + b.size(0)


def offset(E, k, a):
    return each(E, lambda x: x.float() * k + k, a)


def scaled(E, k, a, b):
    return each(E, lambda x, y: x * k - y, a, b)


def shared(E, k, a, b):
    s = each(E, lambda x, y: x - y - y, a, b)
    return each(E, lambda x, y, z: x * y - z, s, s, b)


def prefix(E, k, a):
    return E.array(lambda i: E.fold(a[0] - a[0], lambda j, acc: acc + E.where(j <= i, a[j], a[0] - a[0]), count=a.size(0)), size=a.size(0))


def less(E, k, a, b):
    return each(E, lambda x, y: (x < y) | (y + y < x), a, b)


POLY = {  # body -> (kinds of arguments by letter, ranks, kind of the result)
    combine: ("TT", "rr", "T"), choose: ("bTT", "0rr", "T"), element: ("Ti", "R0", "T"), reverse: ("T", "R", "T"), square: ("T", "r", "T"),
    lengths: ("TU", "RS", "i"), offset: ("i", "r", "f"), scaled: ("ff", "rr", "f"), shared: ("TT", "rr", "T"), prefix: ("T", "1", "T"), less: ("TT", "rr", "b"),
}


def fresh_args(r, body, n=(0, 1, 2, 3, 4)):
    kinds, ranks, res = POLY[body]
    t = {"T": r.choice("if") if body is not choose else r.choice("ifb"), "U": r.choice("ifb")}
    if body in (element, reverse) and r.random() < 0.3:
        t["T"] = "b"
    rk = {"r": r.choice([0, 1, 1, 2, 3]), "R": r.choice([1, 1, 2, 3]), "S": r.choice([1, 2]), "0": 0, "1": 1}
    shapes, out = {}, []
    for k, q in zip(kinds, ranks):
        s = shapes.setdefault(q, [r.choice(n) for _ in range(rk[q])])
        out.append(fill(r, t.get(k, k), s))
    if body is element:
        out[1] = numpy.array(r.randint(-2, 5))
    return out, t.get(res, res)


def fill(r, kind, shape):
    n = math.prod(shape)
    dt = {"i": r.choice(["i8", "i8", "i4", "i2"]), "f": r.choice(["f8", "f8", "f4"]), "b": "?"}[kind]
    v = [r.random() < 0.5 if kind == "b" else r.randint(-9, 9) for _ in range(n)]
    return numpy.array(v, dtype=dt).reshape(shape)


def call(f, args, how):
    return f(*args) if how == "call" else getattr(f, how)(*args)


def judge(c, label, thunk, exp, ty, tol, info):
    out = io.StringIO()
    try:
        with c.observing(), contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = thunk()
        d = run.compare(res, exp, ty, tol)
    except TimeoutError:
        raise
    except Exception as e:
        d = f"{type(e).__name__}: {str(e)[:200]}"
    c.event("evaluations")
    if d is not None:
        c.violation(f"{label}: {d}", info)
    return d is None


def contain(r, how, arrs):
    conv = {"torch": r.choice(["numpy", "tensor", "mixed"]), "jax": r.choice(["numpy", "jnp"]), "numpy": "numpy",
            "call": r.choice(["numpy", "tensor", "mixed"])}[how]
    named = {str(i): run.relayout(a, r.choice(LAYOUTS), None) for i, a in enumerate(arrs)}
    if conv == "mixed":
        ts = as_inputs(named, "tensor", r)
        return [ts[k] if r.random() < 0.5 else named[k] for k in named], conv
    return list(as_inputs(named, conv, r).values()), conv


def is_tensor(x):
    return type(x).__module__.startswith("torch")


def polymorphic(c, jax=0.06, steps=12):
    """several functions, some over the same Python body, called in a random order"""
    import ein

    r = c.rng("history")
    E = real()
    bodies = r.sample(sorted(POLY, key=lambda f: f.__name__), 2)
    fs = []
    for b in bodies + [r.choice(bodies)]:
        k = float(r.randint(-3, 3))
        py = (lambda b, k: lambda *xs: b(E, k, *xs))(b, k)
        fs.append((b, k, ein.function(py)))
    earlier = []
    log = []
    for step in range(steps):
        b, k, f = fs[r.randrange(len(fs))]
        x = r.random()
        kept = [e for e in earlier if e[0] is b]
        if x < 0.2 and kept:  # the same array objects with other contents
            _, args, kind = r.choice(kept)
            for a in args:
                if a.size and a.flags.writeable:
                    a[...] = fill(r, DT[a.dtype.kind], list(a.shape)).astype(a.dtype)
            c.event("mutated arguments")
        elif x < 0.35 and kept:
            _, args, kind = r.choice(kept)
            c.event("repeated arguments")
        elif x < 0.5:
            bad(c, r, b, f, log)
            continue
        else:
            args, kind = fresh_args(r, b)
        earlier.append((b, args, kind))
        try:
            exp, ty, top = expected(lambda S, *xs: b(S, k, *xs), kind, args)
        except Skip:
            continue
        how = r.choice(["numpy", "numpy", "torch", "call"]) if r.random() > jax else "jax"
        given, conv = contain(r, how, args)
        if how == "numpy" and r.random() < 0.4:
            given = args
        log.append(f"{b.__name__}[{k}].{how}({', '.join(f'{a.dtype}{list(a.shape)}' for a in args)}) {conv}")
        want_torch = how == "torch" or (how == "call" and any(map(is_tensor, given)))

        def go():
            res = call(f, given, how)
            if how != "jax" and is_tensor(res) != want_torch:
                raise AssertionError(f"returned a {type(res)}")
            return res

        c.event("how:" + how)
        if not judge(c, f"call {step + 1} of a history: {log[-1]}", go, exp, ty, None, dict(history=log, args=[a.tolist() for a in args], expected=str(exp)[:500])):
            return
    c.seen(tuple(log))
    c.sample(dict(history=log))


def bad(c, r, b, f, log):
    """a call that must fail, every time"""
    args, kind = fresh_args(r, b, n=(1, 2, 3))
    kinds, ranks, _ = POLY[b]
    how = r.choice(["numpy", "torch"])
    x = r.randrange(3)
    if x == 0:
        args, what = args + [numpy.array(1.0)], "an argument too many"
    elif x == 1 and len(args) > 1:
        args, what = args[:-1], "an argument too few"
    else:
        # a kind for which the body is ill-typed
        wrong = {combine: 1, choose: 2, scaled: 0, shared: 1, less: 1}.get(b)
        if wrong is None:
            return
        old = args[wrong]
        other = {"i": "f", "f": "i", "u": "f", "b": "i"}[old.dtype.kind]
        args[wrong] = fill(r, other, list(old.shape))
        what = "an ill-typed argument"
        if b is scaled and other == "f":
            return
    for n in range(2):
        c.event("evaluations")
        c.event("failing calls")
        with c.observing():
            try:
                given, _ = contain(r, how, args)
                res = call(f, given, how)
            except TimeoutError:
                raise
            except Exception:
                continue
        c.violation(f"call with {what} accepted: {b.__name__}({', '.join(f'{a.dtype}{list(a.shape)}' for a in args)})", dict(history=log))
        return
    log.append(f"{b.__name__}.{how}: {what}")


def idioms(c, jax=0.0, steps=5):
    """one idiom's function over changing sizes, containers and backends"""
    import ein

    idm = IDIOMS[NAMES[c.index % len(NAMES)]]
    r = c.rng("history")
    E = real()
    f = ein.function(lambda *xs: idm.fun(E, *xs))
    types = None
    log = []
    for step in range(steps):
        arrs, sizes = draw(idm, r)
        if types is None and r.random() < 0.4:
            from ein.frontend.functions import typed_function

            types = [run.ein_type(nd(list(a.shape), DT[a.dtype.kind])) for a in arrs]
            f = typed_function(*types)(lambda *xs: idm.fun(E, *xs))
        try:
            exp, ty, top = expected(idm.fun, idm.kind, arrs)
        except Skip:
            continue
        how = r.choice(["numpy", "numpy", "torch", "call"])
        if idm.jax and r.random() < jax:
            how = "jax"
        given, conv = contain(r, how, arrs)
        log.append(f"{how} {conv} {sizes}")
        c.event("how:" + how)
        tol = None if idm.exact and top < 2**40 else 1e-8 * top
        if not judge(c, f"call {step + 1} of idiom {idm.name}: {log[-1]}", lambda: call(f, given, how), exp, ty, tol,
                     dict(history=log, idiom=idm.name, inputs=[a.tolist() for a in arrs])):
            return
        if types is not None and r.random() < 0.7:
            # declared types are enforced again
            k = r.randrange(len(arrs))
            a = arrs[k]
            wrong = [a[..., None], a.astype({"f": "i8", "i": "f8", "b": "f8"}[a.dtype.kind]), a.astype(bool) if a.dtype.kind != "b" else a.astype("i8")][r.randrange(3)]
            bad_args = [wrong if i == k else x for i, x in enumerate(arrs)]
            c.event("evaluations")
            c.event("undeclared types")
            with c.observing():
                try:
                    call(f, bad_args, r.choice(["numpy", "torch"]))
                    c.violation(f"declared types not enforced for idiom {idm.name} in argument {k}: {wrong.dtype}, rank {wrong.ndim}", dict(history=log))
                    return
                except TypeError:
                    pass
                except Exception as e:
                    c.event("undeclared types: " + type(e).__name__)
    c.seen(idm.name, tuple(log))
    c.sample(dict(idiom=idm.name, history=log))


def positions(c):
    """arguments are bound by position: f(x0, ..., xn) tells every argument apart"""
    import ein

    r = c.rng("pos")
    n = r.choice([1, 2, 3, 4, 5, 6, 8])
    E = real()
    order = r.sample(range(n), n)
    used = order[: r.randint(1, n)]

    def body(E, *xs):
        s = xs[used[0]] * 1.0
        for q, i in enumerate(used):
            s = s + xs[i] * float(10 ** (q + 1))
        return s

    arity = n
    py = eval(f"lambda {', '.join(f'x{i}' for i in range(n))}: body(E, {', '.join(f'x{i}' for i in range(n))})", dict(body=body, E=E))
    f = ein.function(py)
    for _ in range(3):
        args = [numpy.array(float(r.randint(1, 9))) for _ in range(arity)]
        exp, ty, _ = expected(body, "f", args)
        how = r.choice(["numpy", "torch", "call", "numpy", "torch"])
        given, conv = contain(r, how, args)
        judge(c, f"position of {n} arguments, used in order {used}: {how}", lambda: call(f, given, how), exp, ty, None, dict(n=n, used=used, args=[a.tolist() for a in args]))
    c.seen(n, tuple(used))
    c.sample(dict(n=n, used=used))

"""Dense exploration of fold bodies around what is recognised as a reduction or contraction (C06)."""
from __future__ import annotations

import math

from .lang import Node, V, array, fold, get, lit, nd, op, rec, field, let, var
from .w_programs import direct


def forms(c, backends):
    r = c.rng("forms")
    n, k, m = (r.choice([0, 1, 2, 3, 4]) for _ in range(3))
    ins = {"x": nd([n, k], "f"), "y": nd([k, m], "f"), "z": V(k, "f"), "w": V(n, "f"), "s": "f", "cnt": "i", "b": nd([k], "b")}

    def rnd(t):
        if isinstance(t, tuple):
            return [rnd(t[2]) for _ in range(t[1])]
        return {"f": lambda: float(r.randint(-3, 4)), "i": lambda: r.randint(-2, 4), "b": lambda: r.random() < 0.5}[t]()

    vals = {q: rnd(t) for q, t in ins.items()}
    V_ = lambda q: var(q, ins[q])
    two = r.random() < 0.5
    idx = ["i", "j"] if two else ["i"]
    sizes = [n, m] if two else [n]

    def leaf(cs):
        """an element, depending on counters cs and indices"""
        q = r.random()
        t = r.choice(cs)
        if q < 0.25:
            return get(V_("x"), var("i", "i"), var(t, "i"))
        if q < 0.45 and two:
            return get(V_("y"), var(t, "i"), var("j", "i"))
        if q < 0.6:
            return get(V_("z"), var(t, "i"))
        if q < 0.68:
            return get(V_("w"), var("i", "i"))
        if q < 0.75:
            return V_("s")
        if q < 0.82:
            return op("float", "f", var(t, "i"))
        if q < 0.88:
            return get(V_("z"), op(r.choice(["add", "sub"]), "i", var(t, "i"), lit(r.choice([-1, 1, 2]))))
        if q < 0.94:
            return op("where", "f", get(V_("b"), var(t, "i")), get(V_("z"), var(t, "i")), V_("s"))
        x = lit(r.choice([0.0, 1.0, 2.0, -1.0]))
        x.a["w"] = 1
        return x

    def elem(cs, d):
        if d == 0 or r.random() < 0.3:
            return leaf(cs)
        o = r.choice(["mul", "mul", "mul", "add", "sub", "neg"])
        if o == "neg":
            return op("neg", "f", elem(cs, d - 1))
        return op(o, "f", elem(cs, d - 1), elem(cs, d - 1))

    fresh = [0]

    def nm(p):
        fresh[0] += 1
        return f"{p}{fresh[0]}"

    def tree(acc, cs, d):
        """a body over the accumulator"""
        A = var(acc, "f")
        q = r.random()
        e = lambda: elem(cs, r.choice([0, 1, 2]))
        if q < 0.4:
            o = r.choice(["add", "add", "add", "min", "max"])
            return op(o, "f", *((A, e()) if r.random() < 0.5 else (e(), A)))
        if q < 0.5:
            return op("sub", "f", *((A, e()) if r.random() < 0.6 else (e(), A)))
        if q < 0.6 and d:
            o = r.choice(["add", "min", "max"])
            return op(o, "f", tree(acc, cs, d - 1), e())
        if q < 0.68:
            return op("add", "f", op("add", "f", A, A) if r.random() < 0.5 else op("mul", "f", A, V_("s")), e())
        if q < 0.76:
            return op("add", "f", A, op("mul", "f", A, e()) if r.random() < 0.5 else op("min", "f", A, e()))
        if q < 0.84:
            return op("where", "f", op("lt", "b", A, e()), A, e())
        if q < 0.92 and d:
            return inner(A, cs, d - 1)
        if q < 0.96:
            # the body of a reduction in form, over something other than its accumulator
            other = V_("s") if len(cs) < 2 or r.random() < 0.5 else var(r.choice(outer), "f")
            pair = (other, get(V_("z"), var(cs[-1], "i")))
            return op(r.choice(["add", "min", "max", "sub"]), "f", *(pair if r.random() < 0.5 else pair[::-1]))
        return e()

    outer = []

    def inner(init, cs, d):
        kk, aa = nm("k"), nm("a")
        outer.append(init.a["name"])
        body = tree(aa, [*cs, kk], d)
        outer.pop()
        cnt = count(kk)
        t = fold(kk, aa, init, body, cnt)
        t.a["n"] = None
        return t

    def count(kk):
        q = r.random()
        if q < 0.6:
            return Node("size", "i", (V_("z"),), axis=0)
        if q < 0.8:
            return lit(r.choice([-2, -1, 0, 1, 2, 3, 5]))
        if q < 0.9:
            return V_("cnt")
        return op("sub", "i", Node("size", "i", (V_("w"),), axis=0), lit(r.randint(0, 3)))

    def init():
        q = r.random()
        if q < 0.45:
            return lit(0.0)
        if q < 0.6:
            return lit(r.choice([1.0, -2.0, 5.0]))
        if q < 0.7:
            return lit(r.choice([math.inf, -math.inf]))
        if q < 0.8:
            return V_("s")
        return get(V_("w"), var("i", "i"))

    kk, aa = nm("k"), nm("a")
    style = r.random()
    if style < 0.75:
        b = fold(kk, aa, init(), tree(aa, [kk], 2), count(kk))
        if r.random() < 0.3:
            b = op(r.choice(["add", "sub", "mul"]), "f", b, elem([kk], 0) if False else V_("s"))
    elif style < 0.9:
        # nested sums of products, as contractions
        k2, a2 = nm("k"), nm("a")
        e = elem([kk, k2], 2)
        s2 = fold(k2, a2, lit(0.0), op("add", "f", var(a2, "f"), e), count(k2))
        if r.random() < 0.5:
            s2 = op(r.choice(["mul", "add", "sub"]), "f", s2, elem([kk], 1))
        b = fold(kk, aa, lit(0.0), op("add", "f", *((var(aa, "f"), s2) if r.random() < 0.5 else (s2, var(aa, "f")))), count(kk))
    else:
        # two accumulators feeding each other
        ty = ("t", ("f", "i"))
        A = var(aa, ty)
        f0, f1 = field(A, 0), field(A, 1)
        e = elem([kk], 1)
        nf = op(r.choice(["add", "sub", "min", "max"]), "f", *((f0, e) if r.random() < 0.5 else (e, f0)))
        if r.random() < 0.5:
            nf = op("add", "f", nf, op("float", "f", f1))
        ni = op("mod", "i", op("add", "i", op("mul", "i", f1, lit(2)), var(kk, "i")), lit(17))
        if r.random() < 0.4:
            ni = op("where", "i", op("lt", "b", f0, e), ni, f1)
        z = init()
        t = fold(kk, aa, rec(ty, z, lit(r.randint(0, 3))), rec(ty, nf, ni), count(kk))
        nme = nm("t")
        b = let(nme, t, op("add", "f", field(var(nme, ty), 0), op("float", "f", field(var(nme, ty), 1))))
    ex = [Node("size", "i", (V_("x"),), axis=0)] + ([Node("size", "i", (V_("y"),), axis=1)] if two else [])
    body = array(idx, sizes, b, ex)
    direct(c, ins, vals, body, backends)


def contraction(r):
    """(input types, values, program): sums of sums, differences and products of elements, as einsum would take"""
    dims = {q: r.choice([0, 1, 2, 3, 3, 4]) for q in "ijklm"}
    if r.random() < 0.4:
        dims["l"] = dims["k"]
    kind = "f"
    ins = {}
    fresh = [0]

    def nm(p):
        fresh[0] += 1
        return f"{p}{fresh[0]}"

    out = r.choice([[], ["i"], ["i", "j"], ["i", "j"], ["j", "i"]])

    def leaf(names, need=()):
        """names: axis letter -> variable in scope"""
        n = r.choice([1, 1, 2, 2, 3])
        ax = list(need)
        rest = [q for q in names if q not in ax]
        r.shuffle(rest)
        ax += rest[: max(0, n - len(ax))]
        r.shuffle(ax)
        if r.random() < 0.1 and len(ax) == 2 and dims[ax[0]] == dims[ax[1]] and not need:
            ax[1] = ax[0]
        ty = nd([dims[q] for q in ax], kind)
        old = [q for q, (t, a) in ins.items() if t == ty and a == ax]
        if old and r.random() < 0.3:
            q = r.choice(old)
        else:
            q = nm("p")
            ins[q] = (ty, ax)
        if not ax:
            return var(q, kind)
        return get(var(q, ty), *(var(names[a], "i") for a in ax))

    def product(names, counters, d):
        fs = [leaf(names, [q for q in counters if r.random() < 0.8])]
        missing = [q for q in counters if q not in ins_axes(fs[0])]
        for q in missing:
            fs.append(leaf(names, [q]))
        for _ in range(r.choice([0, 1, 1, 2])):
            x = r.random()
            if x < 0.7 or d <= 0:
                fs.append(leaf(names))
            elif x < 0.8:
                fs.append(op("neg", kind, leaf(names)))
            elif x < 0.9:
                fs.append(tree(names, [], d - 1))
            else:
                fs.append(inner(names, d - 1))
        r.shuffle(fs)
        t = fs[0]
        for f in fs[1:]:
            t = op("mul", kind, *((t, f) if r.random() < 0.7 else (f, t)))
        return t

    def ins_axes(t):
        return ins[t.args[0].a["name"]][1] if t.op == "get" else []

    def tree(names, counters, d):
        x = r.random()
        if d <= 0 or x < 0.35:
            return product(names, counters, d)
        if x < 0.55:
            return op("add", kind, tree(names, counters, d - 1), tree(names, counters, d - 1))
        if x < 0.8:
            return op("sub", kind, tree(names, counters, d - 1), tree(names, counters, d - 1))
        if x < 0.9:
            return op("neg", kind, tree(names, counters, d - 1))
        return op("mul", kind, tree(names, counters, d - 1), tree(names, [], d - 1))

    def total(names, body_of):
        free = [q for q in "klm" if q not in names]
        q = r.choice(free)
        k, a = nm("k"), nm("a")
        e = body_of({**names, q: k}, q)
        A = var(a, kind)
        n = lit(dims[q]) if r.random() < 0.4 else None
        if n is None:
            src = [(s, ax.index(q)) for s, (t, ax) in ins.items() if q in ax]
            if src:
                s, axis = r.choice(src)
                n = Node("size", "i", (var(s, ins[s][0]),), axis=axis)
            else:
                n = lit(dims[q])
        z = lit(0.0)
        if r.random() < 0.1:
            z = lit(r.choice([1.0, -2.0]))
        t = fold(k, a, z, op("add", kind, *((A, e) if r.random() < 0.7 else (e, A))), n)
        t.a["n"] = None
        return t

    def inner(names, d):
        if all(q in names for q in "klm"):
            return leaf(names)
        return total(names, lambda ns, q: tree(ns, [q], d))

    names = {q: q for q in out}

    def nested(ns, cs, depth):
        if depth == 0:
            return tree(ns, cs, r.choice([1, 2, 2, 3]))
        return total(ns, lambda ns2, q: nested(ns2, [*cs, q], depth - 1))

    b = nested(names, [], r.choice([1, 1, 2, 2, 3]))
    if r.random() < 0.25:
        b = op(r.choice(["add", "sub", "mul"]), kind, b, nested(names, [], 1))
    body = array(out, [dims[q] for q in out], b, [lit(dims[q]) for q in out]) if out else b
    def degree(t):
        ds = [degree(x) for x in t.args]
        if t.op == "op" and t.a["k"] == "mul":
            return sum(ds)
        return max(ds, default=0) + (t.op == "get")

    if body.size() > 120 or degree(body) > 7:  # (NumPy's search of the order of a product takes exponential time)
        from .ctx import Skip

        raise Skip("too large")

    def rnd(t):
        if isinstance(t, tuple):
            return [rnd(t[2]) for _ in range(t[1])]
        return float(r.randint(-3, 3))

    types = {q: t for q, (t, _) in ins.items()}
    return types, {q: rnd(t) for q, t in types.items()}, body


def contractions(c, backends):
    direct(c, *contraction(c.rng("contractions")), backends)


# accumulators which are arrays, and change their size from one iteration to the next
def at_or(S, a, items, other):
    """an element, or another value outside of the array"""
    items = items if isinstance(items, tuple) else (items,)
    ok = None
    for axis, q in enumerate(items):
        q = S.wrap(q)
        inside = (q >= 0) & (q < a.size(axis))
        ok = inside if ok is None else ok & inside
    return S.where(ok, a[items], S.wrap(other))


def half(S, n):
    return S.fold(S.wrap(0), lambda k, h: S.where(h * 2 < n, h + 1, h), n)


def transformation(r, mat, only=None):
    """(text, fun(S, a, k, v, t)): an array from the array a, counter k, vector v and (float) index t"""
    p, q = r.randint(0, 2), r.choice([1.0, -1.0, 0.5, 2.0])
    choice = lambda xs: r.choice([x for x in xs if only is None or x in only])
    if not mat:
        pick = choice(["grow", "prepend", "shrink", "behind", "fixed", "fixed grown", "halved", "twice", "other", "same", "same", "reversed", "padded", "indexed"])
        if pick == "grow":
            return f"grow{p}", lambda S, a, k, v, t: a.concat(S.array(lambda j: k.float() + j.float() + q, size=p))
        if pick == "prepend":
            return f"prepend{p}", lambda S, a, k, v, t: S.array(lambda j: k.float() - j.float() + t, size=p).concat(a)
        if pick == "shrink":
            return "shrink", lambda S, a, k, v, t: S.array(lambda j: a[j + 1], size=(a.size(0) - 1).max(0))
        if pick == "behind":
            return "behind", lambda S, a, k, v, t: S.array(lambda j: a[j] + q, size=(a.size(0) - 1).max(0))
        if pick == "fixed":
            return "fixed", lambda S, a, k, v, t: S.array(lambda j: at_or(S, a, j, 7.0) + q, size=v.size(0))
        if pick == "fixed grown":
            return f"fixed grown{p}", lambda S, a, k, v, t: S.array(lambda j: at_or(S, a, j, 7.0) + q, size=v.size(0)).concat(S.array(lambda j: j.float() + t, size=p))
        if pick == "halved":
            return "halved", lambda S, a, k, v, t: S.array(lambda j: a[j * 2], size=half(S, a.size(0)))
        if pick == "twice":
            return "twice", lambda S, a, k, v, t: a.concat(S.array(lambda j: a[j] * q, size=(a.size(0)).min(3)))
        if pick == "other":
            return "other", lambda S, a, k, v, t: S.array(lambda j: v[j] + k.float())
        if pick == "same":
            return "same", lambda S, a, k, v, t: S.array(lambda j: a[j] * q + t)
        if pick == "reversed":
            return "reversed", lambda S, a, k, v, t: S.array(lambda j: a[a.size(0) - 1 - j] + k.float(), size=a.size(0))
        if pick == "padded":
            return f"padded{p}", lambda S, a, k, v, t: S.array(lambda j: at_or(S, a, j - 1, q), size=a.size(0) + p)
        return "indexed", lambda S, a, k, v, t: S.array(lambda j: a[j] + at_or(S, v, j, t), size=a.size(0))
    pick = choice(["transposed", "transposed", "rows", "columns", "drop row", "drop column", "same", "wide", "fixed"])
    if pick == "transposed":
        return "transposed", lambda S, a, k, v, t: S.array(lambda i, j: a[j, i] + q, size=(a.size(1), a.size(0)))
    if pick == "rows":
        return f"rows{p}", lambda S, a, k, v, t: a.concat(S.array(lambda i, j: k.float() + j.float() - t, size=(p, a.size(1))))
    if pick == "columns":
        return f"columns{p}", lambda S, a, k, v, t: S.array(lambda i, j: at_or(S, a, (i, j), q * t), size=(a.size(0), a.size(1) + p))
    if pick == "drop row":
        return "drop row", lambda S, a, k, v, t: S.array(lambda i, j: a[i + 1, j], size=((a.size(0) - 1).max(0), a.size(1)))
    if pick == "drop column":
        return "drop column", lambda S, a, k, v, t: S.array(lambda i, j: a[i, j] + q, size=(a.size(0), (a.size(1) - 1).max(0)))
    if pick == "same":
        return "same", lambda S, a, k, v, t: S.array(lambda i, j: a[i, j] * q + t)
    if pick == "wide":
        return "wide", lambda S, a, k, v, t: S.array(lambda i, j: at_or(S, a, (i, j), 3.0) + v[j], size=(a.size(0), v.size(0)))
    return "fixed", lambda S, a, k, v, t: S.array(lambda i, j: at_or(S, a, (i, j), q) + v[i] * v[j], size=(v.size(0), v.size(0)))


def growing(c, backends):
    from .w_idioms import shadowed
    import numpy

    r = c.rng("growing")
    mat = r.random() < 0.3
    n, m, cnt = r.choice([0, 1, 2, 3, 4]), r.choice([1, 2, 3]), r.choice([0, 1, 1, 2, 2, 3, 4])
    outer = r.choice(["plain", "plain", "every", "inner"])
    # sizes may not depend on indices, and those of folds over accumulators that do are not seen through
    only = None if outer == "plain" else ("grow", "prepend", "fixed", "fixed grown", "other", "same")
    steps = [transformation(r, mat, only) for _ in range(r.choice([1, 1, 2, 2, 3]))]
    style = r.choice(["one", "one", "one", "exchanged", "beside", "total"] if outer == "plain" else ["one", "exchanged"])
    use = r.choice(["itself", "itself", "mapped", "summed", "size", "grown", "with", "ends"] if outer == "plain" else ["itself", "itself", "size", "grown", "ends"])
    start = r.choice(["given", "given", "mapped", "empty", "v"])
    whole = lambda shape: numpy.array([float(r.randint(-3, 4)) for _ in range(math.prod(shape))]).reshape(shape)
    x = whole((n, m) if mat else (n,))
    v = whole((r.choice([n, n, m, 2]),))
    given = r.random() < 0.5  # count: a number or a size
    extra = whole((cnt,))

    def fun(S, x, v, e):
        def result(t):
            if start == "given":
                z = x
            elif start == "mapped":
                z = S.array(lambda i, j: x[i, j] + t) if mat else S.array(lambda i: x[i] + t)
            elif start == "empty":
                z = S.array(lambda i, j: i.float(), size=(0, 2)) if mat else S.array(lambda i: i.float(), size=0)
            else:
                z = S.array(lambda i, j: v[i] - v[j]) if mat else v

            def step(a, k):
                for _, f in steps:
                    a = f(S, a, k, v, t)
                return a

            count = cnt if given else e.size(0)
            if style == "one":
                return S.fold(z, lambda k, a: step(a, k), count)
            if style == "exchanged":
                b = S.fold((z, x), lambda k, a: (a[1], step(a[0], k)), count)
                return b[0] if r_at else b[1]
            if style == "beside":
                b = S.fold((z, S.wrap(1.0)), lambda k, a: (step(a[0], k), a[1] + a[0].size(0).float() * e[k]), count)
                w = b[1]
                return S.array(lambda i, j: b[0][i, j] + w, size=(b[0].size(0), b[0].size(1))) if mat else S.array(lambda i: b[0][i] + w, size=b[0].size(0))
            b = S.fold((z, S.wrap(0.0)), lambda k, a: (step(a[0], k), a[1] * 2.0 + summed(S, a[0])), count)
            w = b[1]
            return S.array(lambda i, j: w, size=(1, 1)) if mat else S.array(lambda i: w + b[0][i], size=b[0].size(0))

        def used(y, t):
            if use == "itself":
                return y
            if use == "mapped":
                return S.array(lambda i, j: y[i, j] * 2.0 - t) if mat else S.array(lambda i: y[i] * 2.0 - t)
            if use == "summed":
                return summed(S, y)
            if use == "size":
                return y.size(0).float() * 10.0 + (y.size(1).float() if mat else 0.0)
            if use == "grown":
                return y.concat(y)
            if use == "with":
                return S.array(lambda i, j: y[i, j] + at_or(S, v, i, 0.0), size=(y.size(0), y.size(1))) if mat else S.array(
                    lambda i: y[i] + at_or(S, v, i, 0.0), size=y.size(0))
            return ends(S, y)

        if outer == "plain":
            return used(result(S.wrap(1.0)), S.wrap(2.0))
        if outer == "every":
            return S.array(lambda q: used(result(e[q]), q.float()), size=e.size(0))
        return S.array(lambda q: S.fold(S.wrap(0.0), lambda k, acc: acc * 2.0 + ends(S, result(e[q] + k.float()))
                                           , 2), size=e.size(0))

    def ends(S, y):
        if mat:
            return at_or(S, y, (0, 0), 5.0) - at_or(S, y, (y.size(0) - 1, y.size(1) - 1), 5.0)
        return at_or(S, y, 0, 5.0) - at_or(S, y, y.size(0) - 1, 5.0)

    def summed(S, y):
        if mat:
            return S.fold(S.wrap(0.0), lambda i, s: S.fold(s, lambda j, u: u * 1.5 + y[i, j], y.size(1)), y.size(0))
        return S.fold(S.wrap(0.0), lambda i, s: s * 1.5 + y[i], y.size(0))

    r_at = r.random() < 0.5
    label = f"fold of {'matrices' if mat else 'vectors'} of {x.shape}, {[s for s, _ in steps]} {style} {outer} {use} from {start}, {cnt} times"
    if shadowed(c, label, fun, "f", [x, v, extra], backends, r, exact=False, tol=None):
        c.seen(mat, tuple(s for s, _ in steps), style, outer, use, start, cnt, x.shape, v.shape)
    c.sample(dict(label=label))

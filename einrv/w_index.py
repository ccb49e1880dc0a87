"""Dense exploration of index expressions (C05)."""
from __future__ import annotations

from .lang import Node, V, array, fold, get, lit, nd, op, var
from .w_programs import direct


def index_expr(r, idx, env, n, depth):
    """an int expression over the indices `idx` and other ints in `env`"""

    def small():
        k = r.random()
        if k < 0.55:
            return lit(r.choice([-9, -3, -2, -1, 0, 1, 2, 3, n, n - 1, n + 1, 9]))
        if k < 0.8 and env["ints"]:
            return var(r.choice(env["ints"]), "i")
        if k < 0.9:
            return Node("size", "i", (var("x", env["x"]),), axis=r.randrange(len(env["dims"])))
        return get(var("p", env["p"]), var(r.choice(idx), "i")) if idx else lit(1)

    if depth == 0:
        k = r.random()
        if idx and k < 0.8:
            return var(r.choice(idx), "i")
        if k < 0.9:
            return get(var("p", env["p"]), var(r.choice(idx), "i") if idx else lit(0))
        return small()
    e = index_expr(r, idx, env, n, depth - 1)
    k = r.choice(["add", "add", "radd", "sub", "sub", "rsub", "min", "max", "min", "max", "rmin", "rmax", "mod", "two", "wh"])
    s = small()
    if e.op == "lit":
        e.a["w"] = 1
    if k in ("add", "sub", "min", "max"):
        return op(k, "i", e, s)
    if k in ("radd", "rsub", "rmin", "rmax"):
        if s.op == "lit" and k in ("rmin", "rmax"):
            s.a["w"] = 1
        return op(k[1:], "i", s, e)
    if k == "mod":
        return op("mod", "i", e, lit(r.choice([1, 2, 3, max(n, 1)])))
    if k == "two" and len(idx) > 1:
        return op("add", "i", e, var(r.choice(idx), "i"))
    if k == "wh":
        return op("where", "i", op("lt", "b", e, lit(r.randint(0, 3))), e, s)
    return op("add", "i", e, s)


def grid(c, backends):
    r = c.rng("grid")
    dims = [r.choice([0, 1, 1, 2, 3, 4, 5, 7]) for _ in range(r.choice([1, 1, 2, 2, 3]))]
    xt = nd(dims, r.choice("ffi"))
    m = [r.choice([0, 1, 2, 3, 4, 6]) for _ in range(2)]
    pt = V(r.choice([1, 3, 5]), "i")
    ins = {"x": xt, "p": pt, "s": "i", "t": "i"}
    ctr = [0]

    def vals(t):
        if t[0] == "v":
            return [vals(t[2]) for _ in range(t[1])]
        ctr[0] += 1
        return ctr[0] * (1.0 if t == "f" else 1) + 10

    v = {"x": vals(xt), "p": [r.randint(-3, 6) for _ in range(pt[1])], "s": r.randint(-4, 5), "t": r.randint(0, 3)}
    env = {"x": xt, "p": pt, "dims": dims, "ints": ["s", "t"]}
    shape = r.choice(["one", "one", "two", "two", "fold", "foldvec", "accidx", "nested", "slice", "reduce"])
    leaf = xt
    while leaf[0] == "v":
        leaf = leaf[2]

    def access(idx, plain=0.35):
        items = []
        for d in dims:
            if r.random() < plain and idx:
                items.append(var(r.choice(idx), "i"))
            else:
                items.append(index_expr(r, idx, env, d, r.choice([0, 1, 1, 2, 2, 3])))
        t = get(var("x", xt), *items)
        t.a["style"] = r.randrange(2)
        return t

    def combine(a, b):
        return op(r.choice(["add", "sub"]), leaf, a, b)

    zero = lit(0.0 if leaf == "f" else 0, leaf)
    if shape == "one":
        b = access(["i"])
        if r.random() < 0.4:
            b = combine(b, access(["i"]))
        body = array(["i"], m[:1], b, [lit(m[0])])
    elif shape == "two":
        b = access(["i", "j"])
        if r.random() < 0.3:
            b = combine(b, access(["j"]))
        body = array(["i", "j"], m, b, [lit(m[0]), lit(m[1])])
    elif shape == "fold":
        env["ints"].append("k")
        b = access(["i", "k"])
        e = op("add", leaf, var("a", leaf), b) if r.random() < 0.6 else op("sub", leaf, b, var("a", leaf))
        body = array(["i"], m[:1], fold("k", "a", zero, e, lit(r.choice([0, 1, 2, 4]))), [lit(m[0])])
    elif shape == "foldvec":
        env["ints"].append("k")
        vt = V(m[0], leaf)
        cur = get(var("a", vt), index_expr(r, ["i"], env, m[0], r.choice([1, 2])))
        b = array(["i"], m[:1], combine(access(["i", "k"]), cur), [lit(m[0])])
        init = array(["i0"], m[:1], access(["i0"]) if False else zero, [lit(m[0])])
        zero.a["w"] = 1
        body = fold("k", "a", init, b, lit(r.choice([0, 1, 2, 3])))
    elif shape == "accidx":
        # indices driven by an integer accumulator
        env["ints"] += ["k", "q"]
        it = index_expr(r, ["i"], env, dims[0], 2)
        nxt = op("mod", "i", op("add", "i", var("q", "i"), get(var("p", pt), op("add", "i", var("q", "i"), it))), lit(11))
        inner = fold("k", "q", var("i", "i") if r.random() < 0.5 else lit(r.randint(0, 3)), nxt, lit(r.choice([0, 1, 3])))
        body = array(["i"], m[:1], inner, [lit(m[0])])
    elif shape == "nested":
        # index into a computed array, itself shifted
        w = array(["u"], m[:1], access(["u"]), [lit(m[0])])
        body = array(["i"], m[1:], get(w, index_expr(r, ["i"], env, m[0], 2)), [lit(m[1])])
    elif shape == "slice" and len(dims) >= 2:
        k = r.randint(1, len(dims) - 1)
        it = index_expr(r, [], env, dims[k], 1)
        ty = nd(dims[:k] + dims[k + 1:], leaf)
        body = Node("slice", ty, (var("x", xt), it), k=k)
    else:
        vec = array(["u"], m[:1], access(["u", "i"]), [lit(m[0])])
        red = Node("reduce", leaf, (vec, zero, op("add", leaf, var("y1", leaf), var("y2", leaf))), x="y1", y="y2")
        body = array(["i"], m[1:], red, [lit(m[1])])
    direct(c, ins, v, body, backends)


# ---------------------------------------------------------------- long axes, indices of every width
TABLES = ("take", "gather", "rows", "both", "crossed", "chain", "shifted", "chased", "columns", "folded", "ending")


def tables(c, backends):
    """lookups in axes longer than what the type of the indices could count"""
    import numpy

    from . import run

    r = c.rng("tables")
    form = TABLES[c.index % len(TABLES)]
    dt = numpy.dtype(r.choice(["int8", "int8", "int16", "int32", "int64"]))
    long = r.choice([100, 127, 128, 129, 200, 256, 300, 1000] if dt.itemsize == 1 else [300, 32767, 32768, 40000, 65536, 70000])
    n, k = r.choice([1, 3, 5]), r.choice([1, 2, 4])
    lo, hi = numpy.iinfo(dt).min, numpy.iinfo(dt).max

    def index():
        q = r.random()
        if q < 0.6:
            v = r.randrange(long)
        elif q < 0.75:
            v = -r.randint(1, long)
        elif q < 0.9:
            v = long + r.randint(-2, long)
        else:
            v = r.choice([lo, hi, 0])
        return min(max(v, lo), hi)

    idx = lambda *shape: numpy.array([index() for _ in range(int(numpy.prod(shape)))], dtype=dt).reshape(shape)
    rng = numpy.random.default_rng(r.randrange(2**32))
    x = rng.integers(-1000, 1000, size=long).astype(r.choice([numpy.float64, numpy.int64]))
    m = rng.integers(-1000, 1000, size=(n, long)).astype(float)
    kind = "f" if x.dtype.kind == "f" else "i"
    clip = lambda a: numpy.clip(a.astype(numpy.int64), 0, long - 1)
    ar = numpy.arange(n)

    if form == "take":
        ins = dict(x=x, p=idx(n))
        fun = lambda E, x, p: E.array(lambda i: x[p[i]])
        want = x[clip(ins["p"])]
    elif form == "gather":
        ins, kind = dict(m=m, p=idx(n)), "f"
        fun = lambda E, m, p: E.array(lambda i: m[i, p[i]])
        want = m[ar, clip(ins["p"])]
    elif form == "rows":
        ins, kind = dict(m=m, q=idx(n, k)), "f"
        fun = lambda E, m, q: E.array(lambda i, j: m[i, q[i, j]])
        want = numpy.take_along_axis(m, clip(ins["q"]), 1)
    elif form == "columns":
        ins, kind = dict(m=numpy.ascontiguousarray(m.T), q=idx(k, n)), "f"
        fun = lambda E, m, q: E.array(lambda j, i: m[q[j, i], i])
        want = numpy.take_along_axis(ins["m"], clip(ins["q"]), 0)
    elif form == "both":
        ins, kind = dict(m=m, p=idx(n).clip(0, 6).astype(dt), q=idx(k)), "f"
        fun = lambda E, m, p, q: E.array(lambda i, j: m[p[i], q[j]])
        want = m[numpy.clip(ins["p"], 0, n - 1)[:, None], clip(ins["q"])[None, :]]
    elif form == "crossed":
        ins, kind = dict(m=numpy.ascontiguousarray(m.T), p=idx(n)), "f"
        fun = lambda E, m, p: E.array(lambda i: m[p[i], i])
        want = ins["m"][clip(ins["p"]), ar]
    elif form == "chain":
        ins = dict(x=x, p=idx(long), q=idx(n))
        fun = lambda E, x, p, q: E.array(lambda i: x[p[q[i]]])
        want = x[clip(ins["p"][clip(ins["q"])])]
    elif form == "shifted":
        ins = dict(x=x, p=idx(n))
        fun = lambda E, x, p: E.array(lambda i: x[p[i] + i])
        want = x[clip(ins["p"].astype(numpy.int64) + ar)]
    elif form == "chased":
        steps = r.randint(0, 4)
        ins = dict(p=idx(long), q=idx(n))
        fun = lambda E, p, q: E.array(lambda i: E.fold(q[i], lambda t, a: p[a], steps))
        want = ins["q"]
        for _ in range(steps):
            want = ins["p"][clip(want)]
        kind = "i"
    elif form == "folded":
        ins, kind = dict(x=x.astype(float), p=idx(n)), "f"
        fun = lambda E, x, p: E.fold(E.wrap(0.0), lambda i, a: a * 0.5 + x[p[i]], n)
        want = 0.0
        for v in ins["x"][clip(ins["p"])]:
            want = want * 0.5 + v
        want = numpy.array(want)
    else:
        ins = dict(x=x, p=idx(n))
        fun = lambda E, x, p: E.array(lambda i: x[p[p.size(0) - 1 - i]], size=n)
        want = x[clip(ins["p"][::-1])]
    from .w_idioms import real

    E = real()
    types = {q: run.nd_type(a) for q, a in ins.items()}
    for be in backends:
        mode = r.choice(["wrap", "vars"] + (["function"] if be != "naive" else []))
        with c.observing():
            st, d = run.observe(lambda *a: fun(E, *a), ins, types, be, mode, want.tolist(), run.nd_type(want), None)
        c.event("evaluations")
        if st != "ok":
            c.violation(f"{be}/{mode}: {form} of {dt} indices in an axis of {long}: {st}: {d}",
                        dict(form=form, dtype=str(dt), long=long, backend=be, mode=mode, indices={q: a.tolist()[:20] for q, a in ins.items() if a.dtype == dt}))
            return
    c.event(f"lookup {form}")
    c.seen(form, str(dt), long, n, k)
    c.sample(dict(form=form, dtype=str(dt), long=long))


# ---------------------------------------------------------------- axes as long as some other axis
def sized(c, backends):
    """every index is as long as some axis of some array, and reads any axis of any other"""
    import numpy

    from .w_idioms import shadowed

    r = c.rng("sized")
    ds = r.sample([1, 2, 3, 4, 5, 6], 4)
    shapes = [[r.choice(ds) for _ in range(k)] for k in (3, 2, 1)]
    names = iter(f"v{i}" for i in range(10**6))

    def arr(rank, scope, depth):
        """a recipe for an array of the rank, out of what is in the scope"""
        have = [a for a, k in scope["arrs"] if k == rank]
        k = r.random()
        if have and k < 0.35:
            return r.choice(have)
        if k < 0.6 and rank < 3:
            more = arr(rank + 1, scope, depth)
            return ("at", more, item(scope, depth))
        if k < 0.68 and rank < 3 and depth:
            a = arr(rank, scope, depth - 1)
            return ("cat", a, a if rank > 1 else arr(rank, scope, depth - 1))
        if k < 0.85 and depth:
            ix = [next(names) for _ in range(rank)]
            inner = dict(arrs=scope["arrs"], ints=scope["ints"] + ix)
            return ("vec", ix, [size(scope, depth - 1) for _ in ix], scalar(inner, depth - 1))
        if rank <= 2 and depth and k < 0.93:
            return loop(rank, scope, depth - 1)
        return ("in", 3 - rank) if rank else None

    def loop(rank, scope, depth):
        init = arr(rank, scope, depth)
        t, m = next(names), next(names)
        like = [("var", m)] + [init] * ("'ix'" not in repr(init))  # sizes do not depend on indices
        ix = [next(names) for _ in range(rank)]
        inner = dict(arrs=scope["arrs"] + [(("var", m), rank)] * 2, ints=scope["ints"] + [t])
        own = dict(arrs=inner["arrs"], ints=inner["ints"] + ix)
        body = ("vec", ix, [("dim", r.choice(like), j) for j in range(rank)], scalar(own, depth))
        return ("fold", init, t, m, body, r.choice([0, 1, 2, 3]))

    def size(scope, depth):
        if r.random() < 0.12:
            return r.choice([1, 2, 4, 7])
        rank = r.choice([1, 2, 2, 3])
        return ("dim", arr(rank, dict(arrs=scope["arrs"], ints=[]), min(depth, 1)), r.randrange(rank))

    def item(scope, depth):
        if scope["ints"] and r.random() < 0.85:
            n = r.choice(scope["ints"])
            return ("ix", n, r.choice([0, 0, 0, 0, 1, -1]))
        return r.choice([0, 1, 2, -1])

    def scalar(scope, depth):
        def read():
            rank = r.choice([1, 1, 2, 2, 3])
            a = arr(rank, scope, depth)
            return ("get", a, [item(scope, depth) for _ in range(rank)])

        return ("add", [read() for _ in range(r.choice([1, 1, 2]))])

    def build(E, ins, spec, env, memo):
        def go(s):
            if not isinstance(s, tuple):
                return s
            tag = s[0]
            if tag == "in":
                return ins[s[1]]
            if tag == "var":
                return env[s[1]]
            if tag == "at":
                return go(s[1])[go(s[2])]
            if tag == "ix":
                return env[s[1]] + s[2] if s[2] else env[s[1]]
            if tag == "cat":
                return go(s[1]).concat(go(s[2]))
            if tag == "dim":
                return go(s[1]).size(s[2])
            if tag == "get":
                return go(s[1])[tuple(map(go, s[2]))]
            if tag == "add":
                t = go(s[1][0])
                for q in s[1][1:]:
                    t = t * 2.0 + go(q)
                return t
            if tag == "vec":
                return comprehension(s[1], tuple(map(go, s[2])), s[3])
            if tag == "fold":
                def step(t, m):
                    env[s[2]], env[s[3]] = t, m
                    return go(s[4])

                return E.fold(go(s[1]), step, s[5])
            raise AssertionError(s)

        def comprehension(ix, sizes, body):
            def at(*idx):
                env.update(zip(ix, idx))
                return go(body)

            f = {1: lambda a: at(a), 2: lambda a, b: at(a, b), 3: lambda a, b, d: at(a, b, d)}[len(ix)]
            return E.array(f, size=sizes if len(sizes) > 1 else sizes[0])

        return go(spec)

    scope = dict(arrs=[(("in", 0), 3), (("in", 1), 2), (("in", 2), 1)], ints=[])
    rank = r.choice([1, 2, 2, 3])
    if r.random() < 0.4 and rank < 3:
        spec = loop(rank, scope, 2)
    else:
        ix = [next(names) for _ in range(rank)]
        spec = ("vec", ix, [size(scope, 2) for _ in ix], scalar(dict(arrs=scope["arrs"], ints=ix), 2))
    rng = numpy.random.default_rng(r.randrange(2**32))
    arrs = [rng.integers(-9, 10, size=s).astype(float) for s in shapes]

    def fun(E, *ins):
        return build(E, ins, spec, {}, {})

    shadowed(c, f"sized {shapes}", fun, "f", arrs, backends, r, info=dict(recipe=repr(spec)[:3000]))
    c.seen(repr(spec), shapes)
    c.sample(dict(recipe=repr(spec)[:300], shapes=shapes))

"""External functions in every position (C16)."""
from __future__ import annotations

import itertools

import numpy

from . import run, shadow
from .ctx import Skip
from .w_idioms import expected, real, shadowed


class F:
    """fun works on trailing axes; core: ranks of operands, out: (rank, kind); need: needs non-empty operands"""

    def __init__(self, name, kinds, core, out, fun, need=False, np_only=False):
        self.name, self.kinds, self.core, self.out, self.fun, self.need, self.np_only = name, kinds, core, out, fun, need, np_only


TABLE = [
    F("mix", "ff", (0, 0), (0, "f"), lambda a, b: a * 2.0 - b),
    F("mix3", "fff", (0, 0, 0), (0, "f"), lambda a, b, c: a * 4.0 + b * 2.0 - c),
    F("mix4", "ffff", (0, 0, 0, 0), (0, "f"), lambda a, b, c, d: a * 4.0 + b * 2.0 - c + d * 8.0),
    F("iprod", "ii", (0, 0), (0, "i"), lambda a, b: a * 2 - b),
    F("less", "ff", (0, 0), (0, "b"), lambda a, b: a < b),
    F("both", "bb", (0, 0), (0, "b"), lambda a, b: a & ~b),
    F("un", "f", (0,), (0, "f"), lambda a: a * a + 1.0),
    F("to_float", "i", (0,), (0, "f"), lambda a: a * 0.5),
    F("pick", "bff", (0, 0, 0), (0, "f"), lambda c, a, b: a * c + b * ~c),
    F("dot", "ff", (1, 1), (0, "f"), lambda a, b: (a * b).sum(-1)),
    F("scale", "ff", (0, 1), (1, "f"), lambda s, v: s[..., None] * v),
    F("scale2", "ff", (1, 0), (1, "f"), lambda v, s: v - s[..., None]),
    F("axpy", "fff", (0, 1, 1), (1, "f"), lambda s, v, w: s[..., None] * v + w),
    F("matvec", "ff", (2, 1), (1, "f"), lambda m, v: (m * v[..., None, :]).sum(-1)),
    F("outer", "ff", (1, 1), (2, "f"), lambda a, b: a[..., :, None] * b[..., None, :]),
    F("cumsum", "f", (1,), (1, "f"), lambda v: v.cumsum(-1)),
    F("total", "f", (1,), (0, "f"), lambda v: v.sum(-1)),
    F("transposed", "f", (2,), (2, "f"), lambda m: m.swapaxes(-1, -2)),
    F("last", "f", (1,), (0, "f"), lambda v: v[..., -1], need=True),
    F("argmax", "f", (1,), (0, "i"), lambda v: v.argmax(-1), need=True),
    F("sorted", "f", (1,), (1, "f"), lambda v: numpy.sort(v, axis=-1), np_only=True),
    F("reversed", "f", (1,), (1, "f"), lambda v: v[..., ::-1], np_only=True),
    F("logaddexp", "ff", (0, 0), (0, "f"), lambda a, b: numpy.logaddexp(a, b), np_only=True),
    F("hypot", "ff", (0, 0), (0, "f"), numpy.hypot, np_only=True),
]
BY = {f.name: f for f in TABLE}
PY = {"f": float, "i": int, "b": bool}


def signature(f, full):
    import ein

    out = ein.ndarray_type(f.out[0], PY[f.out[1]])
    if not full:
        return out
    return [ein.ndarray_type(r, PY[k]) for r, k in zip(f.core, f.kinds)], out


def entries(r, k, shape):
    n = int(numpy.prod(shape))
    if k == "f":
        v = [float(r.randint(-3, 4)) for _ in range(n)]
    elif k == "i":
        v = [r.randint(-3, 4) for _ in range(n)]
    else:
        v = [r.random() < 0.5 for _ in range(n)]
    return numpy.array(v, dtype=run.NPT[k]).reshape(shape)


class Plan:
    """one application: where each operand comes from"""

    def __init__(self, r, f, ns, core_dim):
        self.f = f
        self.arrs, self.srcs, self.text = [], [], []
        for k, rank in zip(f.kinds, f.core):
            deps = [d for d in (0, 1) if r.random() < 0.7]
            r.shuffle(deps)
            cs = [core_dim] * rank
            style = r.choice(["direct", "direct", "comp", "computed"] + (["index"] if rank == 0 and k in "fi" else []) + (["const"] if rank == 0 else []))
            if style == "index":
                self.srcs.append((style, k, deps[:1] or [0], rank, None))
            elif style == "const":
                v = entries(r, k, ()).item()
                self.srcs.append((style, k, [], rank, v))
            elif style == "comp" and rank:
                self.arrs.append(entries(r, k, cs[::-1] + [ns[d] for d in deps]))
                self.srcs.append((style, k, deps, rank, len(self.arrs) - 1))
            else:
                self.arrs.append(entries(r, k, [ns[d] for d in deps] + cs))
                self.srcs.append(("computed" if style == "computed" and k != "b" else "direct", k, deps, rank, len(self.arrs) - 1))
            self.text.append(f"{self.srcs[-1][0]}{deps}")

    def operand(self, S, q, xs, ij):
        style, k, deps, rank, w = self.srcs[q]
        at = [ij[d] for d in deps]
        if style == "index":
            return at[0].float() * 2.0 if k == "f" else at[0]
        if style == "const":
            return S.wrap(w)
        x = xs[w]
        if style == "comp":
            if rank == 1:
                return S.array(lambda a: x[(a, *at)] if at else x[a], size=x.size(0))
            return S.array(lambda a, b: x[(b, a, *at)], size=(x.size(1), x.size(0)))
        e = x[tuple(at)] if at else x
        if style == "computed":
            one = 1.0 if k == "f" else 1
            if rank == 0:
                return e * one + one
            if rank == 1:
                return S.array(lambda a: e[a] * one + one, size=x.size(len(at)))
            return S.array(lambda a, b: e[a, b] * one + one, size=(x.size(len(at)), x.size(len(at) + 1)))
        return e

    def call(self, S, g, xs, ij):
        return g(*(self.operand(S, q, xs, ij) for q in range(len(self.f.kinds))))


CONTEXTS = ("plain", "permuted", "nested", "fold", "foldsize", "record", "shared", "reduce", "chain", "cond", "let_out", "single", "lookup")


def program(plan, f, ctx, n, m, sig):
    """fun(S, *arrays) whose value contains the application at every (i, j)"""
    rank, kind = f.out

    def fun(S, *xs):
        g = S.ext(f.fun, sig(f))
        el = lambda i, j: plan.call(S, g, xs, (i, j))

        def num(e):
            """the result as a float scalar"""
            if rank == 1:
                e = e.or_empty(0, S.wrap({"f": 0.0, "i": 0, "b": False}[kind]))
            if rank == 2:
                e = S.where((e.size(0) > 0) & (e.size(1) > 0), e[0, 0], S.wrap(0.0))
            return S.where(e, S.wrap(1.0), S.wrap(0.0)) if kind == "b" else e.float() if kind == "i" else e

        if ctx == "plain":
            return S.array(el, size=(n, m))
        if ctx == "permuted":
            return S.array(lambda j, i: el(i, j), size=(m, n))
        if ctx == "nested":
            return S.array(lambda i: S.array(lambda j: el(i, j), size=m), size=n)
        if ctx == "fold":
            return S.array(lambda i: S.fold(S.wrap(0.0), lambda j, acc: acc * 2.0 + num(el(i, j)), m), size=n)
        if ctx == "foldsize":
            return S.array(lambda j: S.fold(S.wrap(1.0), lambda i, acc: acc + num(el(i, j)), n), size=m)
        if ctx == "record":
            a = S.array(lambda i, j: {"v": num(el(i, j)), "k": i.float() - j.float()}, size=(n, m))
            return S.array(lambda i, j: a[i, j]["v"] * 2.0 + a[i, j]["k"], size=(n, m))
        if ctx == "shared":
            def body(i, j):
                e = num(el(i, j))
                return e + e * 2.0 + S.where(e > 1.0, e, -e)

            return S.array(body, size=(n, m))
        if ctx == "reduce":
            return S.array(lambda i: S.array(lambda j: num(el(i, j)), size=m).reduce(S.wrap(0.0), lambda a, b: a + b), size=n)
        if ctx == "chain":
            h = S.ext(BY["mix"].fun, sig(BY["mix"]))
            return S.array(lambda i, j: h(num(el(i, j)), h(i.float(), num(el(i, j)))), size=(n, m))
        if ctx == "cond":
            return S.array(lambda i, j: S.where(i < j, num(el(i, j)), num(el(j, i)) * 3.0), size=(n, m))
        if ctx == "let_out":
            a = S.array(el, size=(n, m))
            return S.array(lambda j, i: num(a[i, j]) - num(a[i, 0]), size=(m, n))
        if ctx == "single":
            return el(S.wrap(0), S.wrap(0))
        if ctx == "lookup":
            h = S.ext(BY["iprod"].fun, sig(BY["iprod"]))
            return S.array(lambda i, j: num(el(h(i, j), h(j, i))), size=(n, m))
        raise AssertionError(ctx)

    return fun


def _kind(f, ctx):
    return f.out[1] if ctx in ("plain", "permuted", "nested", "single") else "f"


class Sig:
    """full or partial declaration, in terms of real types (the shadow only looks at the structure)"""

    def __init__(self, full):
        self.full = full

    def __call__(self, f):
        s = signature(f, self.full)
        return tuple(s) if isinstance(s, tuple) else s


def applications(c, backends):
    run.namespace()
    r = c.rng("ext")
    f = TABLE[c.index % len(TABLE)]
    ctx = CONTEXTS[(c.index // len(TABLE) + c.index) % len(CONTEXTS)]
    n, m = r.choice([0, 1, 2, 3]), r.choice([1, 2, 3, 4])
    if ctx in ("single", "let_out", "cond", "lookup"):
        n, m = max(n, 1), max(m, 1)
    plan = Plan(r, f, (n, m), r.choice([1, 2, 3]) if f.need or n == 0 else r.choice([0, 1, 2, 3]))
    if f.np_only:
        backends = [b for b in backends if b in ("numpy", "naive")]
        if not backends:
            raise Skip("a NumPy function")
    if ctx in ("cond",) and n != m:
        n = m
        plan = Plan(r, f, (n, m), 2)
    fun = program(plan, f, ctx, n, m, Sig(r.random() < 0.5))
    label = f"{f.name} in {ctx} of {n}x{m}, operands {plan.text}"
    # stored transposed in memory or not, never by overlapping views (functions may be given views)
    shadowed(c, label, fun, _kind(f, ctx), plan.arrs, backends, r, exact=f.name not in ("logaddexp", "hypot"), jax=True,
             info=dict(fun=f.name, ctx=ctx))
    c.event(f"context {ctx}")
    c.event("applications")
    c.seen(f.name, ctx, n, m, plan.text)
    c.sample(dict(label=label))


# ---------------------------------------------------------------- what the function was given
def recorded(c, backends):
    """the operands which the function observed are those of the elements, no more and no less"""
    import ein

    run.namespace()
    r = c.rng("ext")
    k = r.choice([1, 2, 3, 4])
    kinds = [r.choice("fib") for _ in range(k)]
    n, m = r.choice([1, 2, 3]), r.choice([1, 2, 4])
    be = r.choice(backends)
    f = F("rec", kinds, (0,) * k, (0, "f"), None)
    plan = Plan(r, f, (n, m), 2)
    calls = []

    def code(xs):
        """distinguishes the tuples of operands"""
        out = 0.0
        for q, x in enumerate(xs):
            out = out * 64.0 + (x + 16 if kinds[q] != "b" else x * 1.0)
        return out

    def rec(*xs):
        calls.append(xs)
        if len(xs) != k:
            raise ValueError("number of operands")
        return code(xs)

    f.fun = rec
    ctx = r.choice(["plain", "permuted", "nested", "shared", "fold1"])

    def fun(S, *xs):
        g = S.ext(rec, signature(f, False))
        el = lambda i, j: plan.call(S, g, xs, (i, j))
        if ctx == "permuted":
            return S.array(lambda j, i: el(i, j), size=(m, n))
        if ctx == "nested":
            return S.array(lambda i: S.array(lambda j: el(i, j), size=m), size=n)
        if ctx == "shared":
            return S.array(lambda i, j: (lambda e: S.where(e > 0.0, e, -e))(el(i, j)), size=(n, m))
        if ctx == "fold1":
            return S.array(lambda i: S.fold(S.wrap(0.0), lambda j, acc: acc + el(i, j), m), size=n)
        return S.array(el, size=(n, m))

    exp, ty, top = expected(fun, "f", plan.arrs)
    want = set()
    for xs in calls:
        want.add(tuple(x.item() for x in xs))
    calls.clear()
    info = dict(ctx=ctx, backend=be, operands=plan.text, kinds=kinds, inputs=[a.tolist() for a in plan.arrs])
    E = real()
    names = [f"p{i}" for i in range(len(plan.arrs))]
    mode = r.choice(["wrap", "vars"])
    with c.observing():
        st, d = run.observe(lambda *xs: fun(E, *xs), dict(zip(names, plan.arrs)), {q: run.nd_type(a) for q, a in zip(names, plan.arrs)}, be, mode,
                            exp, ty, 1e-12 * top)
    c.event("evaluations")
    if st != "ok":
        c.violation(f"{be}: recorded {ctx}: {st}: {d}", info)
        return
    got = set()
    for xs in calls:
        arrs = [run.as_np(x) for x in xs]
        for q, a in enumerate(arrs):
            if a.dtype.kind != kinds[q]:
                c.violation(f"{be}: operand {q} is {a.dtype}, its static kind is {kinds[q]}", info)
                return
        try:
            bs = numpy.broadcast_arrays(*arrs)
        except ValueError as e:
            c.violation(f"{be}: operands do not broadcast: {[a.shape for a in arrs]}", info)
            return
        for t in zip(*(b.reshape(-1).tolist() for b in bs)):
            got.add(tuple(t))
    c.event("calls recorded", len(calls))
    if got != want:
        c.violation(f"{be}: in {ctx} the function was given {sorted(got - want)[:4]} beyond and never {sorted(want - got)[:4]}", info)
        return
    c.event("operand tuples", len(got))
    c.seen(ctx, be, plan.text, kinds, n, m)
    c.sample(dict(ctx=ctx, backend=be, operands=plan.text, tuples=len(got)))


# ---------------------------------------------------------------- signatures
def signatures(c):
    """a declared signature is enforced when the function is applied, wherever that is"""
    import ein

    run.namespace()
    r = c.rng("sig")
    k = r.choice([1, 1, 2, 2, 3])
    decl = [(r.choice([0, 0, 1, 1, 2]), r.choice("fib")) for _ in range(k)]
    out = (r.choice([0, 0, 1]), r.choice("fi"))
    seen = []

    def fun(*xs):
        seen.append(len(xs))
        return run.as_np(xs[0]) * 1.0

    sig = ([ein.ndarray_type(a, PY[b]) for a, b in decl], ein.ndarray_type(out[0], PY[out[1]]))
    if r.random() < 0.3:
        sig = (tuple(sig[0]), sig[1])
    given = list(decl)
    what = r.choice(["right", "kind", "rank", "few", "many", "swap", "type"])
    if what == "kind":
        q = r.randrange(k)
        given[q] = (given[q][0], r.choice([x for x in "fib" if x != given[q][1]]))
    elif what == "rank":
        q = r.randrange(k)
        given[q] = (r.choice([x for x in (0, 1, 2, 3) if x != given[q][0]]), given[q][1])
    elif what == "few":
        given.pop(r.randrange(k))
    elif what == "many":
        given.insert(r.randrange(k + 1), r.choice(decl))
    elif what == "swap":
        r.shuffle(given)
    right = given == decl
    place = r.choice(["vars", "consts", "array", "fold", "function", "reduce"])
    g = ein.ext(fun, sig)

    def args(extra=0):
        return [entries(r, b, [2] * (a + extra)) for a, b in given]

    info = dict(declared=decl, given=given, place=place, out=out)

    def go():
        if place == "vars":
            return ein.with_varargs([ein.ndarray_type(a, PY[b]) for a, b in given], lambda *xs: ein.wrap(g(*xs)))
        if place == "consts":
            return g(*args())
        if place == "array":
            xs = [ein.wrap(a) for a in args(1)]
            return ein.array(lambda i: g(*(x[i] for x in xs)), size=2)
        if place == "fold":
            xs = [ein.wrap(a) for a in args(1)]

            def step(i, acc):
                g(*(x[i] for x in xs))
                return acc + 1.0

            return ein.fold(ein.wrap(0.0), step, 2)
        if place == "reduce":
            xs = [ein.wrap(a) for a in args(1)]

            def both(a, b):
                g(*(x[0] for x in xs))
                return a + b

            return ein.wrap(numpy.ones(2)).reduce(ein.wrap(0.0), both)
        f = ein.function(lambda *xs: g(*xs))
        return f.phi(*(ein.ndarray_type(a, PY[b]) for a, b in given))

    with c.observing():
        try:
            go()
            ok, err = True, ""
        except (TypeError, ValueError, AssertionError) as e:
            ok, err = False, f"{type(e).__name__}: {e}"
    c.event("evaluations")
    if ok and not right:
        c.violation(f"declared {decl}, given {given}: accepted in {place}", info)
        return
    if not ok and right:
        c.violation(f"declared {decl}, given {given}: rejected in {place}: {err[:200]}", info)
        return
    if seen:
        c.violation(f"building a program called the external function ({place})", info)
        return
    c.event("accepted" if ok else "rejected")
    c.seen(decl, given, place)
    c.sample(info)


# ---------------------------------------------------------------- functions that look alike
class Scaled:
    def __init__(self, k):
        self.k = k

    def __call__(self, x, y):
        return x * self.k - y

    def method(self, x, y):
        return x * self.k - y


def _scaled(k, x, y):
    return x * k - y


def alike(r, how, k):
    import functools

    if how == "closure":
        return lambda x, y: x * k - y
    if how == "default":
        return lambda x, y, k=k: x * k - y
    if how == "partial":
        return functools.partial(_scaled, k)
    if how == "object":
        return Scaled(k)
    if how == "method":
        return Scaled(k).method
    if how == "cell":
        s = [k]

        def fun(x, y):
            return x * s[0] - y

        return fun
    if how == "named":
        src = {2.0: "x * 2.0 - y", -1.0: "x * -1.0 - y", 5.0: "x * 5.0 - y", 0.5: "x * 0.5 - y"}[k]
        ns = {}
        exec(f"def fun(x, y):\n    return {src}\n", ns)
        return ns["fun"]
    inner = alike(r, "closure", k)

    def wrapped(*args):
        return inner(*args)

    functools.update_wrapper(wrapped, _scaled)
    return wrapped


HOW = ("closure", "default", "partial", "object", "method", "cell", "named", "wrapped")


def callables(c, backends):
    """functions that differ in what they captured only, or in nothing but their identity"""
    run.namespace()
    r = c.rng("alike")
    how = HOW[c.index % len(HOW)]
    ks = [r.choice([2.0, -1.0, 5.0, 0.5]) for _ in range(r.choice([2, 2, 3, 4]))]
    fs = [alike(r, how if r.random() < 0.85 else r.choice(HOW), k) for k in ks]
    n = r.choice([1, 2, 3])
    a, b = (numpy.array([float(r.randint(-3, 4)) for _ in range(n)]) for _ in range(2))
    full = r.random() < 0.5
    F2 = F("alike", "ff", (0, 0), (0, "f"), None)
    rank = r.random() < 0.3  # applied to whole vectors
    if rank:
        F2 = F("alike", "ff", (1, 1), (1, "f"), None)
    ctx = r.choice(["sum", "sum", "nested", "where", "fold", "concat", "record", "array of each", "chain", "folds"])
    same = r.random() < 0.7
    sig = signature(F2, full)
    sig = tuple(sig) if isinstance(sig, tuple) else sig
    w = [float(r.choice([1, 3, 7])) for _ in fs]

    def fun(S, x, y):
        gs = [S.ext(f, sig) for f in fs]
        if rank:
            vs = [S.array(lambda i, v=g(x, y): v[i], size=n) for g in gs]
            el = lambda q, i: vs[q][i]
        else:
            el = lambda q, i: gs[q](x[i], y[i]) if same or q % 2 == 0 else gs[q](y[i], x[i])
        idx = range(len(fs))

        def total(i):
            t = S.wrap(0.0)
            for q in idx:
                t = t + el(q, i) * w[q]
            return t

        if ctx == "sum":
            return S.array(total, size=n)
        if ctx == "nested":
            return S.array(lambda i: S.array(lambda j: el(0, i) - el(1, j), size=n), size=n)
        if ctx == "where":
            return S.array(lambda i: S.where(x[i] > y[i], el(0, i), el(1, i)) + el(len(fs) - 1, i), size=n)
        if ctx == "fold":
            return S.fold(S.wrap(0.0), lambda k, acc: acc * 2.0 + total(k), n)
        if ctx == "concat":
            v = S.array(lambda i: el(0, i), size=n)
            for q in idx[1:]:
                v = v.concat(S.array(lambda i: el(q, i), size=n))
            return v
        if ctx == "record":
            v = S.array(lambda i: {"a": el(0, i), "b": el(1, i)}, size=n)
            return S.array(lambda i: v[i]["a"] * 10.0 + v[i]["b"], size=n)
        if ctx == "array of each":
            vs_ = [S.array(lambda i, q=q: el(q, i), size=n) for q in idx]
            return S.array(lambda i: sum((v[i] * u for v, u in zip(vs_[1:], w)), vs_[0][i]), size=n)
        if ctx == "chain":
            if rank:
                return S.array(total, size=n)
            def step(i):
                t = x[i]
                for g in gs:
                    t = g(t, y[i])
                u = x[i]
                for g in gs[::-1]:
                    u = g(u, y[i])
                return t * 100.0 + u
            return S.array(step, size=n)
        return S.fold(S.wrap(0.0), lambda k, acc: acc + el(0, k), n) * 100.0 + S.fold(S.wrap(0.0), lambda k, acc: acc + el(1, k), n)

    label = f"functions by {how} with {ks} in {ctx} {'of vectors' if rank else ''}"
    if shadowed(c, label, fun, "f", [a, b], backends, r, info=dict(how=how, ks=ks, ctx=ctx)):
        c.event(f"alike by {how}")
        c.seen("alike", how, tuple(ks), ctx, rank, full, same)
    c.sample(dict(label=label))

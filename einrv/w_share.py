"""Shared and invariant work is done once, distinct work is never merged (C18)."""
from __future__ import annotations

import collections
import math
import time

import numpy

from . import case, run
from .ctx import Skip
from .lang import Node, dims_of, is_vec, lit, render
from .profiles import PROFILES
from .ref import Ref, Reject
from .w_idioms import expected, real, shadowed
from .w_programs import one


# ---------------------------------------------------------------- counting calls of external functions
class T:
    """a node of a program with sharing: `home` is the depth of the scope it was made in"""

    def __init__(self, op, args=(), home=0, **a):
        self.op, self.args, self.home, self.a = op, tuple(args), home, a
        free = set().union(*(x.free for x in args)) if args else set()
        if op in ("cnt", "acc", "idx", "xy"):
            free = free | {a["binder"]}
        if "binds" in a:
            free = free - {a["binds"]}
        self.free = frozenset(free)
        self.plain = "binds" not in a and all(x.plain for x in args)


class Loop:
    def __init__(self, trips):
        self.trips, self.node = trips, None  # trips None: a comprehension (one pass)


def evals(free):
    """how often an expression with these free loops may be evaluated, hoisted as far as it goes"""
    loops = [l for l in free if l.trips is not None]
    if not loops:
        return 1
    inner = max(loops, key=lambda l: l.depth)
    return evals(inner.node.free) * inner.trips


FUNS = {
    1: lambda a: a * 0.5 + 1.0,
    2: lambda a, b: a * 0.5 - b * 0.25,
}


class Plan:
    def __init__(self, r):
        self.r = r
        self.exts = []
        self.depth = 0
        self.pools = [[T("in", (), 0, k=k) for k in range(3)]]
        self.used = 0
        n = r.randint(3, 9)
        for _ in range(n):
            self.grow(2)
        pool = self.pools[0]
        outs = [x for x in pool if x.op != "in"]
        self.root = outs[-1]
        for x in outs[:-1]:
            if r.random() < 0.8:
                self.root = T("op", (self.root, x), 0, k="add")

    def any(self):
        r = self.r
        d = len(self.pools) - 1
        while d > 0 and r.random() < 0.35:
            d -= 1
        p = self.pools[d]
        return p[-1 - min(int(r.expovariate(0.5)), len(p) - 1)] if r.random() < 0.7 else r.choice(p)

    def put(self, t):
        self.pools[t.home].append(t)
        return t

    def grow(self, b):
        """one more node, in the current scope or (with invariant operands) still in the current scope"""
        r = self.r
        h = len(self.pools) - 1
        k = r.choice(["op", "op", "where", "ext", "ext", "ext", "get"] + (["fold", "fold", "fold", "comp", "reduce", "vext"] if b > 0 else []))
        if k == "op":
            return self.put(T("op", (self.any(), self.any()), h, k=r.choice(["add", "mix", "max"])))
        if k == "where":
            return self.put(T("where", (self.any(), self.any(), self.any()), h))
        if k == "get":
            return self.put(T("get", (self.any(),), h))
        if k == "ext":
            n = r.choice([1, 1, 2])
            args = [self.any() for _ in range(n)]
            t = T("ext", args, h, id=len(self.exts))
            self.exts.append(t)
            return self.put(t)
        if k == "fold":
            style = r.choice(["general", "general", "linear", "product", "pair"])
            l = Loop(r.choice([0, 1, 2, 3, 4]))
            l.depth = len(self.pools)
            init = [self.any(), self.any()]
            own = [T("cnt", (), l.depth, binder=l), T("acc", (), l.depth, binder=l, part=0)]
            if style == "pair":
                own.append(T("acc", (), l.depth, binder=l, part=1))
            stub = T("stub", (), h)
            l.node = stub
            self.pools.append(own if style in ("general", "pair") else own[:1])
            for _ in range(r.randint(1, 4)):
                self.grow(b - 1)
            last = self.pools[-1][-1]
            some = self.any()
            self.pools.pop()
            if style == "linear":
                body = [T("op", (own[1], last), l.depth, k="add")]
            elif style == "product":
                body = [T("op", (own[1], T("op", (last, some), l.depth, k="mul")), l.depth, k="add")]
            elif style == "pair":
                body = [T("op", (own[1], last), l.depth, k="mix"), T("op", (own[2], some), l.depth, k="mix")]
            else:
                body = [T("op", (own[1], last), l.depth, k="mix")]
            t = T("fold", [*init[: len(body)], *body], h, binds=l, loop=l, n=len(body))
            stub.free = t.free
            return self.put(t)
        if k == "comp":
            l = Loop(None)
            l.depth = len(self.pools)
            n = r.choice([1, 2, 3])
            self.pools.append([T("idx", (), l.depth, binder=l)])
            for _ in range(r.randint(1, 3)):
                self.grow(b - 1)
            last = self.pools.pop()[-1]
            return self.put(T("comp", (last,), h, binds=l, loop=l, n=n, at=r.randrange(n)))
        if k == "vext":
            l = Loop(None)
            l.depth = len(self.pools)
            n = r.choice([1, 2, 3])
            self.pools.append([T("idx", (), l.depth, binder=l)])
            self.grow(b - 1)
            last = self.pools.pop()[-1]
            t = T("vext", (last,), h, binds=l, loop=l, n=n, id=len(self.exts))
            self.exts.append(t)
            return self.put(t)
        if k == "reduce":
            l = Loop(None)
            l.depth = len(self.pools)
            n = r.choice([1, 2, 3, 5, 8])
            self.pools.append([T("idx", (), l.depth, binder=l)])
            self.grow(b - 1)
            last = self.pools.pop()[-1]
            m = Loop(2 * math.ceil(math.log2(n + 1)) + 2)
            m.depth = len(self.pools)
            stub = T("stub", (), h)
            m.node = stub
            x = T("xy", (), m.depth, binder=m, part=0)
            y = T("xy", (), m.depth, binder=m, part=1)
            e = T("ext", (x, y), m.depth, id=len(self.exts), mx=1)
            self.exts.append(e)
            inner = e
            if r.random() < 0.5:
                # an invariant call inside of the combination, which must not change it
                z = T("ext", (self.any(),), m.depth, id=len(self.exts))
                self.exts.append(z)
                inner = T("ignore", (e, z), m.depth)
            vec = T("vec", (last,), h, binds=l, loop=l, n=n)
            t = T("reduce", (vec, inner), h, binds=m, loop=m, n=n)
            stub.free = t.free
            return self.put(t)
        raise AssertionError(k)

    def bounds(self):
        return {t.a["id"]: evals(t.free) for t in self.exts}

    def fun(self, calls, memo=True):
        import ein

        f = ein.scalar_type(float)

        def counted(i, g):
            def call(*xs):
                calls[i] += 1
                return g(*xs)

            return call

        def both(a, b):
            return a * (a >= b) + b * (a < b)

        gs = {}
        for t in self.exts:
            i = t.a["id"]
            if t.op == "vext":
                gs[i] = counted(i, lambda v: v.sum(-1))
            elif t.a.get("mx"):
                gs[i] = counted(i, both)
            else:
                gs[i] = counted(i, FUNS[len(t.args)])

        def program(S, *xs):
            exts = {i: S.ext(g, f) for i, g in gs.items()}

            def go(t, frames, env):
                if t.op in ("cnt", "acc", "idx", "xy"):
                    return env[t.a["binder"], t.a.get("part", 0), t.op]
                if not memo and t.plain:
                    return make(t, frames, env)
                fr = frames[t.home]
                if id(t) not in fr:
                    fr[id(t)] = make(t, frames, env)
                return fr[id(t)]

            def make(t, frames, env):
                A = t.args
                if t.op == "in":
                    return xs[0] if t.a["k"] == 0 else xs[1][t.a["k"] - 1]
                if t.op == "op":
                    a, b = (go(x, frames, env) for x in A)
                    k = t.a["k"]
                    return a + b if k == "add" else a * b if k == "mul" else a.max(b) if k == "max" else a * 0.5 - b
                if t.op == "where":
                    a, b, c = (go(x, frames, env) for x in A)
                    return S.where(a < b, b * 0.5, c)
                if t.op == "ignore":
                    a, b = (go(x, frames, env) for x in A)
                    return S.where(b != b, S.wrap(0.0), a)
                if t.op == "get":
                    a = go(A[0], frames, env)
                    return S.where(a > 0.0, xs[1][S.where(a > 1.0, S.wrap(1), S.wrap(0))], a)
                if t.op == "ext":
                    return exts[t.a["id"]](*(go(x, frames, env) for x in A))
                if t.op in ("comp", "vext", "vec"):
                    l = t.a["loop"]
                    fs = frames[: l.depth]
                    v = S.array(lambda i: go(A[0], fs + [{}], {**env, (l, 0, "idx"): i.float()}), size=t.a["n"])
                    return v[t.a["at"]] if t.op == "comp" else v if t.op == "vec" else exts[t.a["id"]](v)
                if t.op == "reduce":
                    v = go(A[0], frames, env)
                    l = t.a["loop"]
                    fs = frames[: l.depth]
                    return v.reduce(S.wrap(-math.inf), lambda x, y: go(A[1], fs + [{}], {**env, (l, 0, "xy"): x, (l, 1, "xy"): y}))
                if t.op == "fold":
                    l, n = t.a["loop"], t.a["n"]
                    fs = frames[: l.depth]
                    init = tuple(go(x, frames, env) for x in A[:n])

                    def step(j, acc):
                        accs = acc if n > 1 else (acc,)
                        e = {**env, (l, 0, "cnt"): j.float(), **{(l, q, "acc"): x for q, x in enumerate(accs)}}
                        fr = fs + [{}]
                        out = tuple(go(x, fr, e) for x in A[n:])
                        return out if n > 1 else out[0]

                    res = S.fold(init if n > 1 else init[0], step, l.trips)
                    return res[0] + res[1] * 0.5 if n > 1 else res
                raise AssertionError(t.op)

            return go(self.root, [{}], {})

        return program


def describe(t, seen=None):
    seen = {} if seen is None else seen
    if id(t) in seen:
        return f"#{seen[id(t)]}"
    if t.op in ("cnt", "acc", "idx", "xy"):
        return f"{t.op}{t.a['binder'].depth}{t.a.get('part') or ''}"
    if t.op == "in":
        return f"in{t.a['k']}"
    seen[id(t)] = len(seen)
    tag = f"#{seen[id(t)]}="
    return f"{tag}{t.op}{t.a.get('id', '')}{t.a.get('k', '')}{t.a.get('n', '')}({', '.join(describe(x, seen) for x in t.args)})"


def counts(c, backends, memo=True):
    run.namespace()
    r = c.rng("share")
    plan = Plan(r)
    if not plan.exts:
        raise Skip("no calls")
    calls = collections.Counter()
    fun = plan.fun(calls, memo)
    bounds = plan.bounds()
    arrs = [numpy.array(float(r.randint(-3, 3))), numpy.array([float(r.randint(-3, 3)) for _ in range(2)])]
    exp, ty, top = expected(fun, "f", arrs)
    E = real()
    total = sum(calls.values())
    info = dict(program=describe(plan.root)[:1500], bounds=bounds, inputs=[a.tolist() for a in arrs])
    for be in backends:
        mode = r.choice(("wrap", "vars", "function"))
        calls.clear()
        ins = {"p0": arrs[0], "p1": arrs[1]}
        with c.observing():
            st, d = run.observe(lambda *xs: fun(E, *xs), ins, {q: run.nd_type(a) for q, a in ins.items()}, be, mode, exp, ty, 1e-9 * top)
        c.event("evaluations")
        c.event("calls observed", sum(calls.values()))
        c.event("calls without sharing", total)
        if st != "ok":
            c.violation(f"{be}/{mode}: {st}: {d} | {info['program'][:300]}", dict(info, backend=be, mode=mode))
            return
        for i, n in calls.items():
            if n > bounds[i]:
                c.violation(f"{be}/{mode}: call {i} was made {n} times, once per scope is {bounds[i]} | {info['program'][:400]}",
                            dict(info, backend=be, mode=mode, calls=dict(calls)))
                return
            if bounds[i] > 1:
                c.event("calls in loops")
            elif any(True for t in plan.exts if t.a["id"] == i and t.home > 0):
                c.event("calls moved out of loops")
    c.seen(describe(plan.root))
    c.sample(info)


# ---------------------------------------------------------------- nearly equal programs in one
SWAPS = [("add", "sub", "mul"), ("min", "max"), ("lt", "le", "gt", "ge", "eq", "ne"), ("and", "or"), ("sin", "cos", "tanh")]


def spots(n, path=()):
    """places that do not determine a size"""
    yield path, n
    for i, x in enumerate(n.args):
        if (n.op, i) in (("fold", 2), ("stdfold", 1)) or n.op == "reduce" or (n.op == "array" and i) or (n.op == "let" and i == 0 and x.ty == "i"):
            continue
        yield from spots(x, path + (i,))


def put(n, path, f):
    if not path:
        return f(n)
    args = list(n.args)
    args[path[0]] = put(args[path[0]], path[1:], f)
    return n.with_args(args)


def copied(n, **a):
    m = n.with_args(n.args)
    m.a = {**n.a, **a}
    return m


def varied(body, r):
    """the program with one small change of the same type"""
    opts = []
    for path, n in spots(body):
        if n.op == "op":
            for group in SWAPS:
                if n.a["k"] in group and not n.a.get("std"):
                    opts += [(path, lambda m, k=k: copied(m, k=k)) for k in group if k != n.a["k"]]
            if n.a["k"] in ("sub", "lt", "le") and n.args[0].ty == n.args[1].ty:
                opts.append((path, lambda m: m.with_args(m.args[::-1])))
            if n.a["k"] == "where" and n.args[1].ty == n.args[2].ty:
                opts.append((path, lambda m: m.with_args([m.args[0], m.args[2], m.args[1]])))
        elif n.op == "lit" and not isinstance(n.a["v"], bool) and n.a["v"] == n.a["v"]:
            v = n.a["v"]
            if isinstance(v, float):
                opts.append((path, lambda m: copied(m, v=-m.a["v"])))
                if abs(v) < 1e6:
                    opts.append((path, lambda m: copied(m, v=m.a["v"] + 1.0)))
        elif n.op == "field":
            from .lang import comps

            t = n.args[0].ty
            opts += [(path, lambda m, k=k: copied(m, key=k)) for k, x in comps(t) if x == n.ty and k != n.a["key"]]
        elif n.op == "concat" and len(n.args) == 2 and n.args[0].ty == n.args[1].ty:
            opts.append((path, lambda m: m.with_args(m.args[::-1])))
        elif n.op == "get" and len(n.args) >= 3:
            ds, _ = dims_of(n.args[0].ty)
            if ds[0] == ds[1] and n.args[1].op == n.args[2].op == "op":  # (indices themselves give sizes)
                opts.append((path, lambda m: m.with_args([m.args[0], m.args[2], m.args[1], *m.args[3:]])))
        elif n.op == "get" and len(n.args) == 2 and n.args[1].op == "lit":
            opts.append((path, lambda m: m.with_args([m.args[0], lit(m.args[1].a["v"] + 1)])))
    if not opts:
        return None
    path, f = r.choice(opts)
    return put(body, path, f)


def joined(parts):
    if is_vec(parts[0].ty):
        n = sum(p.ty[1] for p in parts)
        return Node("concat", ("v", n, parts[0].ty[2]), parts, std=1)
    vs = []
    for p in parts:
        vs.append(Node("array", ("v", 1, p.ty), (p, lit(1)), names=("zz",), infer=False))
    return Node("concat", ("v", len(parts), parts[0].ty), vs, std=1)


def near_copies(c, profile, backends):
    """a program beside copies of it that differ in one place: each part keeps its own value"""
    cs = case.make(c.seed, PROFILES[profile])
    if cs is None or cs.body.size() > 150:
        raise Skip("no program")
    r = c.rng("vary")
    parts = [cs.body]
    for _ in range(r.choice([1, 1, 2, 3])):
        v = varied(r.choice(parts), r)
        if v is None:
            raise Skip("nothing to vary")
        parts.append(v)
    r.shuffle(parts)
    if r.random() < 0.3:
        parts.append(r.choice(parts))
    body = joined(parts)
    ref = Ref(run.EXT_REF, steps=PROFILES[profile].max_work * 4)
    try:
        cs.exp = ref.ev(body, cs.vals)
    except (Reject, OverflowError) as e:
        raise Skip("oracle: " + str(e)[:40])
    cs.body, cs.ty, cs.src, cs.mag = body, body.ty, render(body), ref.mag
    cs.tol = 1e-7 * ref.mag if cs.inexact else None
    per = 1 if not is_vec(parts[0].ty) else parts[0].ty[1]
    if len({str(case.enc(cs.exp[q * per : (q + 1) * per])) for q in range(len(parts))}) > 1:
        c.event("copies with different values")
    fun = run.build(cs.src, list(cs.ins))
    for be in backends:
        if be == "jax" and cs.dynamic:
            continue
        one(c, cs, fun, be, r)
    c.event("copies", len(parts))
    c.seen(cs.src)
    c.sample(dict(src=cs.src[:400]))


# ---------------------------------------------------------------- constants
def constants_pool(r):
    """groups of constants that are easily taken for one another"""
    n = r.choice([1, 2, 3, 4, 6])
    k = r.choice(["scalar", "dtype", "shape", "order", "last", "views", "nan", "bits", "mutated", "zeros", "zeros"])
    f = numpy.array([float(r.randint(-3, 3)) for _ in range(n)])
    if k == "scalar":
        return k, [0, 0.0, -0.0, False, 1, 1.0, True, -1, -1.0, math.nan, math.inf, -math.inf, 2**53, 2.0**53, 2**53 + 1]
    if k == "dtype":
        g = numpy.array([r.choice([0, 1]) for _ in range(n)])
        return k, [g.astype(t) for t in (numpy.int64, numpy.float64, numpy.int32, numpy.float32, numpy.bool_)]
    if k == "shape":
        g = numpy.array([float(r.randint(0, 1)) for _ in range(12)])
        return k, [g.reshape(s) for s in ((12,), (1, 12), (12, 1), (2, 6), (6, 2), (3, 4), (4, 3), (2, 2, 3), (3, 2, 2))]
    if k == "order":
        g = numpy.arange(6.0).reshape(2, 3)
        return k, [g, g.T, numpy.asfortranarray(g), g.reshape(3, 2), numpy.asfortranarray(g.reshape(3, 2)), g[::-1], g[:, ::-1], g.T[::-1]]
    if k == "last":
        m = r.choice([3, 1023, 1024, 1025, 1500])
        g = numpy.arange(float(m))
        h, w, z = g.copy(), g.copy(), g.copy()
        h[-1] += 1
        w[m // 2] -= 1
        z[0] = -0.0
        return k, [g, h, w, g.copy(), z, g[::-1], g[: m - 1]]
    if k == "views":
        m = r.choice([8, 2060])
        g = numpy.arange(float(m))
        return k, [g[: m // 2], g[m // 2:], g[::2], g[1::2], g[: m // 2][::-1], g.reshape(2, -1), g.reshape(-1, 2)]
    if k == "nan":
        a = numpy.array([math.nan, 1.0])
        return k, [a, numpy.array([math.nan, 2.0]), numpy.array([1.0, math.nan]), numpy.array([-math.nan, 1.0]), numpy.array([0.0, 1.0]),
                   numpy.array([-0.0, 1.0])]
    if k == "zeros":
        # that compare as equal
        m = r.choice([n, n, 3, 1030])
        a = numpy.array([r.choice([0.0, 0.0, -0.0]) for _ in range(m)])
        b = a.copy()
        b[r.randrange(m)] *= -1.0
        return k, [0.0, -0.0, a, b, numpy.copysign(a, -b), a * -1.0, numpy.array(-0.0), numpy.array(0.0), b.reshape(1, -1), a.astype(int)]
    if k == "bits":
        a = numpy.array([r.choice([0, 1, 4607182418800017408]) for _ in range(n)])
        return k, [a, a.view(numpy.float64), a.view(numpy.uint8).astype(numpy.int64), a.astype(numpy.float64)]
    a = numpy.zeros((2, n))
    b = numpy.zeros((2, n))
    b[1, -1] = 1
    return k, [a, b, a.astype(int), b.astype(int), b.T, b[::-1]]


def constants(c, backends):
    """constants of one program, each seen through an operation that tells them apart"""
    import ein

    run.namespace()
    r = c.rng("const")
    kind, pool = constants_pool(r)
    chosen = [pool[r.randrange(len(pool))] for _ in range(r.choice([2, 3, 4]))]
    how = r.choice(["sum", "probe", "index", "fold", "size", "sign"]) if kind != "zeros" else "sign"
    arrs = [numpy.asarray(x) for x in chosen]
    r_at = [tuple(r.randrange(d) for d in a.shape) for a in arrs]

    def up(e, a):
        if a.dtype.kind == "b":
            return ein.where(e, 1.0, 0.0)
        return e.float() if a.dtype.kind == "i" else e

    def num(a):
        return a.astype(numpy.float64)

    terms, want = [], []
    for x, a, at in zip(chosen, arrs, r_at):
        e = ein.wrap(x)
        if a.dtype.kind == "i" and (abs(a.astype(float)) > 2.0**53).any():
            # compare as integers
            terms.append(ein.where((e if not a.ndim else e[at]) == int(a[at]), 1.0, 0.0))
            want.append(1.0)
            continue
        if not a.ndim:
            v = num(a).item()
            if how == "sign" and a.dtype.kind == "f" and v == 0.0:
                # the sign of a zero, through a function that sees it
                terms.append(ein.ext(lambda z: run_copysign(z), ein.scalar_type(float))(e))
                want.append(math.copysign(1.0, v))
            else:
                terms.append(up(e, a))
                want.append(v)
        elif how == "sign" and a.dtype.kind == "f" and r.random() < 0.8:
            # the sign of each entry
            at = r.choice([q for q in numpy.ndindex(a.shape)] or [at]) if a.size < 100 else at
            terms.append(ein.ext(lambda z: run_copysign(z), ein.scalar_type(float))(e[at]))
            want.append(math.copysign(1.0, float(a[at])) if a[at] == a[at] else None)
            if want[-1] is None:
                terms[-1], want[-1] = up(e[at], a), float(a[at])
        elif how in ("probe", "sign", "index"):
            terms.append(up(e[at], a))
            want.append(num(a)[at].item())
        elif how == "size":
            q = r.randrange(a.ndim)
            terms.append(e.size(q).float() + up(e[at], a))
            want.append(a.shape[q] + num(a)[at].item())
        else:
            # the entries weighed by their position, in order
            w = numpy.arange(a.size).reshape(a.shape) % 7 + 1.0
            we = ein.wrap(w)
            names = a.ndim
            big = a.size > 3000
            if big:
                terms.append(up(e[at], a))
                want.append(num(a)[at].item())
                continue

            def total(e=e, a=a, we=we, k=names):
                def inner(idx, d):
                    if d == a.ndim:
                        return up(e[tuple(idx)], a) * we[tuple(idx)]
                    if how == "fold" and a.size < 64:
                        return ein.fold(ein.wrap(0.0), lambda i, acc: acc + inner(idx + [i], d + 1), a.shape[d])
                    from ein.frontend import std

                    return std.reduce_sum(lambda i: inner(idx + [i], d + 1), a.shape[d])

                return inner([], 0)

            terms.append(total())
            want.append((num(a) * w).sum().item())
    parts = terms
    out = ein.array(lambda i: parts[0] if len(parts) == 1 else _select(ein, i, parts), size=len(parts))
    want_a = [w for w in want]
    for be in backends:
        if be == "torch" and any(a.dtype in (numpy.uint8,) for a in arrs):
            continue
        info = dict(kind=kind, how=how, constants=[repr(x)[:300] for x in chosen], backend=be)
        with c.observing():
            try:
                got = run.as_np(out.eval(backend=be))
            except Exception as e:
                if isinstance(e, TimeoutError):
                    raise
                c.violation(f"{be}: constants {kind}/{how}: {type(e).__name__}: {str(e)[:200]}", info)
                return
        c.event("evaluations")
        bad = [q for q, (x, w) in enumerate(zip(got.tolist(), want_a)) if not (x == w or (x != x and w != w) or (math.isfinite(w) and abs(x - w) <= 1e-9 * (1 + abs(w))))]
        if bad or got.shape != (len(parts),):
            q = bad[0] if bad else -1
            c.violation(f"{be}: constants {kind}/{how}: part {q} is {got.tolist()[q]}, its own value is {want_a[q]}: {info['constants']}", info)
            return
    c.event("constants", len(parts))
    c.event(f"constants {kind}")
    c.seen(kind, how, [repr(x)[:100] for x in chosen])
    c.sample(dict(kind=kind, how=how, constants=[repr(x)[:60] for x in chosen]))


def run_copysign(z):
    if type(z).__module__.startswith("torch"):
        import torch

        return torch.copysign(torch.ones_like(z), z)
    if isinstance(z, (numpy.ndarray, numpy.generic)):
        return numpy.copysign(numpy.ones_like(z), z)
    import jax.numpy as jnp

    return jnp.copysign(jnp.ones_like(z), z)


def _select(ein, i, parts):
    e = parts[-1]
    for q in range(len(parts) - 2, -1, -1):
        e = ein.where(i == q, parts[q], e)
    return e


# ---------------------------------------------------------------- time
DEPTH = 70


def chains(S, kind, d, x, y):
    """a value whose unshared size is exponential in d"""
    import ein

    if kind == "scalar":
        for q in range(d):
            x = x * 0.5 + x * 0.25 if q % 2 else x - x * 0.5
        return x
    if kind == "where":
        for _ in range(d // 2):
            x = S.where(x > 1.0, x * 0.5, x + 1.0)
        return x
    if kind == "vec":
        v = y
        for _ in range(d // 5):
            v = (lambda u: S.array(lambda i: u[i] * 0.5 + u[i] * 0.25))(v)
        return v[0]
    if kind == "record":
        p = (x, x)
        for _ in range(d // 2):
            p = (p[0] * 0.5 + p[1] * 0.25, p[1] * 0.5 - p[0] * 0.25)
        return p[0] + p[1]
    if kind == "ext":
        g = S.ext(lambda a, b: a * 0.5 + b * 0.25, ein.scalar_type(float))
        for _ in range(d // 2):
            x = g(x, x)
        return x
    if kind == "fold":
        for _ in range(d // 10):
            x = (lambda z: S.fold(z, lambda i, acc: acc * 0.5 + z * 0.25, 2))(x)
        return x
    if kind == "foldnest":
        def nest(k, z):
            if k == 0:
                return z
            return S.fold(z, lambda i, acc: nest(k - 1, acc * 0.5 + z * 0.25), 2)

        return nest(4, x)
    if kind == "let":
        f = lambda k, z: z if k == 0 else f(k - 1, z + z * 0.5 - z)
        return f(d // 2, x)
    if kind == "index":
        i = S.wrap(1)
        for _ in range(d // 4):
            i = (i + i) % 3
        return y[i]
    if kind == "matrix":
        m = S.array(lambda a, b: y[a] * 0.5 + y[b] * 0.25)
        for _ in range(d // 12):
            m = (lambda u: S.array(lambda a, b: u[a, b] * 0.5 + u[b, a] * 0.25))(m)
        return m[0, 1]
    raise AssertionError(kind)


KINDS = ("scalar", "where", "vec", "record", "ext", "fold", "foldnest", "let", "index", "matrix")


def sharing_time(c, backends):
    """the time of evaluation is far from the unshared size (2**d); the worker's limit decides"""
    import ein

    run.namespace()
    r = c.rng("time")
    k1 = KINDS[c.index % len(KINDS)]
    copies = (c.index // len(KINDS)) % 3
    d = DEPTH
    arrs = [numpy.array(1.0), numpy.array([0.5, 1.5, 2.5])]

    def fun(S, x, y):
        if copies == 0:
            return chains(S, k1, d, x, y)
        # built more than once: equal, but not the same objects
        e = chains(S, k1, d, x, y)
        for _ in range(copies):
            e = e * 0.5 + chains(S, k1, d, x, y)
        return e

    start = time.process_time()
    shadowed(c, f"chain {k1} of depth {d}, built {copies + 1} times", fun, "f", arrs, backends, r, exact=False, layouts=False)
    t = time.process_time() - start
    c.event("milliseconds", int(1000 * t))
    c.seen(k1, copies, tuple(backends))
    c.sample(dict(kind=k1, copies=copies + 1, seconds=round(t, 3)))


def refilled(c, backends):
    """arrays used as constants, refilled between evaluations of one program: parts that were equal once need not stay so"""
    import ein

    run.namespace()
    r = c.rng("refilled")
    n, parts = r.choice([1, 2, 3, 5, 1030]), r.choice([2, 2, 3])
    kind = r.choice([numpy.float64, numpy.float64, numpy.float32, numpy.int64])
    scalar = r.random() < 0.2
    shape = () if scalar else r.choice([(n,), (n,), (n, 2), (2, n)])

    def fill():
        return numpy.array([r.randint(-4, 4) for _ in range(int(numpy.prod(shape)))], dtype=kind).reshape(shape)

    first = fill()
    arrs = [first.copy() for _ in range(parts)]
    start = [a.copy() for a in arrs]
    at = tuple(r.randrange(d) for d in shape)
    form = r.choice(["element", "map", "total", "least", "product", "pair", "init"])

    def part(x, read):
        """one expression over each of the arrays: copies but for the array"""
        num = kind(1).item()
        if scalar or form == "element":
            return read(x, at) * read(x, at) + num
        q = at[1:]
        if form == "map":
            return ein.array(lambda i: x[(i, *q)] * num + x[(i, *q)])[at[0]]
        if form == "total":
            return ein.fold(type(num)(0), lambda i, acc: acc + x[(i, *q)] * x[(i, *q)], min(shape[0], 40))
        if form == "least":
            return ein.fold(type(num)(3), lambda i, acc: acc.min(x[(i, *q)]), min(shape[0], 40))
        if form == "product":
            return ein.fold(type(num)(1), lambda i, acc: acc * (x[(i, *q)] - acc) + num, min(shape[0], 5))
        if form == "pair":
            return ein.fold((x[at], x[at]), lambda i, acc: (acc[1], x[(i, *q)]), min(shape[0], 4))[0]
        return ein.fold(x[at], lambda i, acc: acc + num, 3)

    def meaning(a):
        num, v = kind(1).item(), (lambda i: a[(i, *at[1:])].item())
        here = a[at].item()
        if scalar or form == "element":
            return here * here + num
        if form == "map":
            return here + here
        if form == "total":
            return sum((v(i) * v(i) for i in range(min(shape[0], 40))), type(num)(0))
        if form == "least":
            return min([type(num)(3)] + [v(i) for i in range(min(shape[0], 40))])
        if form == "product":
            acc = type(num)(1)
            for i in range(min(shape[0], 5)):
                acc = acc * (v(i) - acc) + num
            return acc
        if form == "pair":
            p, q = here, here
            for i in range(min(shape[0], 4)):
                p, q = q, v(i)
            return p
        return here + 3 * num

    if form == "product" and kind is numpy.float32:
        raise Skip()
    wrapped = [ein.wrap(a) for a in arrs]
    terms = [part(x, lambda x, at: x if scalar else x[at]) for x in wrapped]
    program = terms[0]
    for t in terms[1:]:
        program = program * kind(100).item() + t

    def whole(values):
        acc = values[0]
        for v in values[1:]:
            acc = acc * 100 + v
        return acc

    snapshot = whole([meaning(a) for a in start])
    for step in range(r.choice([2, 3, 4])):
        if step:
            for a in arrs:
                if r.random() < 0.8:
                    a[...] = fill()
        live = whole([meaning(a) for a in arrs])
        with c.observing():
            c.event("evaluations")
            c.seen(form, shape, str(kind), [a.tolist() for a in arrs] if n < 9 else step)
            for b in backends:
                try:
                    got = run.as_np(program.eval(backend=b))
                except Exception as e:
                    if isinstance(e, TimeoutError):
                        raise
                    c.violation(f"{b}: constants refilled, {form} of shape {shape}, evaluation {step}: {type(e).__name__}: {e}", dict(form=form, step=step))
                    return
                if got.shape != () or float(got) not in (float(live), float(snapshot)):
                    c.violation(f"{b}: constants refilled, {form} of {parts} arrays of shape {shape}, evaluation {step}: {got!r}, expected {live!r}",
                                dict(form=form, step=step, parts=parts))
                    return

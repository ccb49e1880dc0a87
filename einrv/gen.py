"""Random well-defined Ein programs (see lang.py), driven by a profile of weights."""
from __future__ import annotations

import random

from .lang import (
    free_vars,
    V, Node, array, comps, dims_of, field, fold, get, has_rec, is_rec, is_vec,
    let, lit, nd, op, rec, var,
)

CLASSES = {
    # frozen dataclasses available to programs (see run.PRELUDE)
    "P2": ("x", "y"),
    "P3": ("lo", "hi", "tag"),
}
KEYS = ["a", "b", "c", "value", "index", "z", "k0", "key", "x"]


class E:
    __slots__ = ("ty", "kind", "lim")

    def __init__(self, ty, kind, lim=None):
        self.ty, self.kind, self.lim = ty, kind, lim


BASE = dict(
    # scalar productions
    atom=3.0, un=1.5, bin=5.0, cmp=1.0, where=1.2, fold=1.2, sum=1.6, argmin=0.4,
    reduce=0.8, size=0.5, let=1.0, getx=1.2, ext=0.3, or_empty=0.3, assume=0.2, logic=1.0,
    recfield=0.6, einsum=0.6, countersum=0.15,
    # vector productions
    varray=6.0, vvar=1.0, concat=0.9, vfold=0.8, vreduce=0.4, wheres=0.4, vlet=0.6,
    slice=0.4, colon=0.2, vrec=0.6, vext=0.15,
    # items
    direct=4.0, shift=2.0, clip=1.2, ilit=0.7, iarb=1.5, imod=0.5, lookup=0.8,
)


class Profile:
    def __init__(self, name="broad", budget=(4, 14), ranks=(0, 3), tys="iffbg", w=None,
                 dims=(0, 1, 2, 2, 3, 3, 4, 5), inexact=0.25, infer=0.5, dyn=0.15,
                 recs=True, neg_count=0.03, top=None, max_work=60000, in_ranks=None):
        self.name, self.budget, self.ranks, self.tys = name, budget, ranks, tys
        self.w = dict(BASE)
        self.w.update(w or {})
        self.dims, self.inexact, self.infer, self.dyn = dims, inexact, infer, dyn
        self.recs, self.neg_count, self.top = recs, neg_count, top
        self.max_work = max_work
        self.in_ranks = in_ranks


class Gen:
    def __init__(self, rng: random.Random, prof: Profile):
        self.r, self.p = rng, prof
        self.n = 0
        self.dynamic = False  # uses sizes that are not static
        self.inexact = rng.random() < prof.inexact
        self.exts = set()
        self.idxlets = set()  # let names whose bound expression mentions an index

    # ------------------------------------------------------------ utilities
    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def pick(self, opts):
        """opts: list of (weight-name or number, thunk)"""
        ws = [self.p.w.get(k, k) if isinstance(k, str) else k for k, _ in opts]
        return self.r.choices(opts, ws)[0][1]()

    def chance(self, p):
        return self.r.random() < p

    def split(self, b, k):
        b = max(b - 1, 0)
        cuts = sorted(self.r.randint(0, b) for _ in range(k - 1))
        return [y - x for x, y in zip([0, *cuts], [*cuts, b])]

    def stype(self):
        t = self.r.choice(self.p.tys)
        if t == "g" and not self.inexact:
            t = "f"
        return t

    def dim(self):
        return self.r.choice(self.dimpool)

    # ------------------------------------------------------------ inputs
    def inputs(self):
        r = self.r
        self.dimpool = [r.choice(self.p.dims) for _ in range(3)]
        res = {}
        for _ in range(r.randint(2, 5)):
            k = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4] if self.chance(0.3) else [0, 1, 1, 2, 2, 3])
            if self.p.in_ranks:
                k = r.choice(self.p.in_ranks)
            s = r.choice("iffb") if not self.inexact else r.choice("iffgg")
            res[self.fresh("x")] = nd([self.dim() for _ in range(k)], s)
        if not any(is_vec(t) for t in res.values()):
            res[self.fresh("x")] = V(self.dim(), "f")
        if self.chance(0.5):
            res[self.fresh("x")] = nd([self.dim() for _ in range(r.choice(self.p.in_ranks or (1, 2)))], "i")
        if self.chance(self.p.dyn):
            res[self.fresh("s")] = "i"
        return res

    def value(self, s):
        r = self.r
        if s == "b":
            return r.random() < 0.5
        if s == "i":
            return r.randint(-3, 6)
        if s == "f":
            return float(r.randint(-4, 6))
        return r.randint(-64, 64) / 16.0 + r.choice([0.0, 0.1])

    def values(self, ty):
        if is_vec(ty):
            return [self.values(ty[2]) for _ in range(ty[1])]
        return self.value(ty)

    # ------------------------------------------------------------ top
    def program(self):
        """(input types, input values, body)"""
        r = self.r
        ins = self.inputs()
        vals = {}
        for k, t in ins.items():
            vals[k] = r.randint(0, 4) if k[0] == "s" else self.values(t)
        self.ivals = vals
        env = {k: E(t, "dyn" if k[0] == "s" else "input") for k, t in ins.items()}
        ty = self.p.top(self) if self.p.top else nd(
            [self.dim() for _ in range(r.randint(*self.p.ranks))], self.stype()
        )
        body = self.gen(ty, env, r.randint(*self.p.budget))
        return ins, vals, body

    # ------------------------------------------------------------ dispatch
    def gen(self, ty, env, b):
        if is_vec(ty):
            return self.vec(ty, env, b)
        if is_rec(ty):
            return self.record(ty, env, b)
        return self.scalar(ty, env, b)

    # ------------------------------------------------------------ paths into variables
    def paths(self, env, want, pure=False):
        """[(name, [steps], type-at-each)] with steps 'get' or ('field', k) that end in `want`"""
        out = []

        def go(name, ty, steps, depth):
            if ty == want or (want == "g" and ty == "f" and not pure):
                out.append((name, steps, ty))
            if is_vec(ty):
                go(name, ty[2], steps + [("get", ty[1])], depth)
            elif is_rec(ty):
                for k, t in comps(ty):
                    go(name, t, steps + [("field", k)], depth)

        for name, e in env.items():
            go(name, e.ty, [], 0)
        return out

    def access(self, env, want, b, need_steps=False):
        ps = self.paths(env, want)
        if need_steps:
            ps = [p for p in ps if p[1]]
        if not ps:
            return None
        # prefer recent binders
        names = list(env)
        ws = [1.0 + 3.0 * (names.index(p[0]) + 1) / len(names) for p in ps]
        name, steps, ty = self.r.choices(ps, ws)[0]
        return self.follow(var(name, env[name].ty), steps, env, b, want)

    def follow(self, t, steps, env, b, want=None):
        items = []
        style = int(self.chance(0.4))

        def flush():
            nonlocal t, items
            if items:
                t = get(t, *items)
                t.a["style"] = style
                items = []

        k = max(1, sum(s[0] == "get" for s in steps))
        for s, x in steps:
            if s == "get":
                items.append(self.item(x, env, b // k))
            else:
                flush()
                t = field(t, x)
        flush()
        if want is not None and t.ty != want:
            t = _retype(t, want)
        return t

    # ------------------------------------------------------------ items
    def indices(self, env):
        return [k for k, e in env.items() if e.kind in ("index", "counter")]

    def item(self, n, env, b):
        """an int node used to index an axis of size n"""
        idx = self.indices(env)
        ok = [k for k in idx if env[k].lim is None or env[k].lim == n]
        opts = [("ilit", lambda: lit(self.r.randint(-2, n + 1) if self.chance(0.5) else self.r.randint(0, max(n - 1, 0))))]
        if ok:
            same = [k for k in ok if env[k].lim == n] or ok
            opts.append(("direct", lambda: var(self.r.choice(same if self.chance(0.6) else ok), "i")))
        if idx:
            opts.append(("shift", lambda: self.shift(n, env)))
            opts.append(("clip", lambda: self.clip(n, env)))
        if b > 0:
            opts.append(("iarb", lambda: self.noalias(self.scalar("i", env, b - 1), env)))
            opts.append(("imod", lambda: op("mod", "i", self.scalar("i", env, b - 1), lit(self.r.choice([2, 3, max(n, 1)])))))
        if b >= 0 and any(p[1] for p in self.paths(env, "i")):
            opts.append(("lookup", lambda: self.noalias(self.access(env, "i", b - 2, True), env)))
        return self.pick(opts)

    def noalias(self, t, env):
        """an index written directly as a subscript gives its axis a size; one that passes through a
        binding, a record field or a trivial power is still that very object, so it counts as well"""
        if t.op == "var" and env.get(t.a["name"]) and env[t.a["name"]].kind in ("index", "counter"):
            return op("add", "i", t, lit(0))
        if t.ty == "i" and t.op in ("let", "field", "pow", "pos"):
            return op("add", "i", t, lit(0))
        return t

    def offset(self, n, env):
        r = self.r
        opts = [(3, lambda: lit(r.choice([-3, -2, -1, -1, 0, 1, 1, 2, 3, 7, -7])))]
        opts.append((1, lambda: self.size_node(None, env)))
        ints = [k for k, e in env.items() if e.ty == "i" and e.kind in ("input", "let", "acc", "dyn", "counter", "xy")]
        if ints:
            opts.append((1.5, lambda: var(r.choice(ints), "i")))
        return self.pick(opts)

    def shift(self, n, env):
        i = var(self.r.choice(self.indices(env)), "i")
        d = self.offset(n, env)
        t = self.r.choice(["add", "radd", "sub", "sub"])
        x = op("add", "i", d, i) if t == "radd" else op(t, "i", i, d)
        if self.chance(0.25):
            x = op(self.r.choice(["add", "sub"]), "i", x, self.offset(n, env))
        return x

    def clip(self, n, env):
        i = var(self.r.choice(self.indices(env)), "i")
        x = self.shift(n, env) if self.chance(0.7) else i
        for _ in range(self.r.randint(1, 3)):
            k = self.r.choice(["min", "max"])
            o = self.offset(n, env) if self.chance(0.4) else lit(self.r.choice([-1, 0, 1, max(n - 1, 0), n, n + 2, 2]))
            a = (x, o) if self.chance(0.6) else (o, x)
            x = op(k, "i", *a)
            if self.chance(0.15):
                x.a["std"] = 1
        return x

    # ------------------------------------------------------------ sizes
    def size_paths(self, env, n):
        out = []
        for name, e in env.items():
            if e.kind in ("index", "counter") or (n != "any" and name in self.idxlets):
                continue
            ds, _ = dims_of(e.ty)
            for ax, d in enumerate(ds):
                if n in (None, "any") or d == n:
                    out.append((name, ax))
        return out

    def size_node(self, n, env, dyn=False):
        """a size expression of value n; never depends on a comprehension index"""
        r = self.r
        ps = self.size_paths(env, "any" if n is None else n)
        if n is None:
            if not ps:
                return lit(r.randint(0, 3))
            name, ax = r.choice(ps)
            return Node("size", "i", (var(name, env[name].ty),), axis=ax)
        opts = [(2.0, lambda: lit(n))]
        if ps:

            def of():
                name, ax = r.choice(ps)
                return Node("size", "i", (var(name, env[name].ty),), axis=ax)

            opts.append((3.0, of))
        qs = self.size_paths(env, None)
        if qs:

            def arith():
                name, ax = r.choice(qs)
                d = dims_of(env[name].ty)[0][ax]
                s = Node("size", "i", (var(name, env[name].ty),), axis=ax)
                return op("add", "i", s, lit(n - d)) if self.chance(0.5) else op("sub", "i", s, lit(d - n))

            opts.append((0.7, arith))
        if dyn:
            ds = [k for k, e in env.items() if e.kind == "dyn"]
            for k in ds:

                def dy(k=k):
                    self.dynamic = True
                    d = self.ivals[k]
                    return op("add", "i", var(k, "i"), lit(n - d)) if d != n else var(k, "i")

                opts.append((2.0, dy))
        return self.pick(opts)

    def direct_access(self, env, index, n, own):
        """x[..][index]..: an access from which the size of `index` can be inferred"""
        cands = []
        for name, e in env.items():
            if e.kind in ("index", "counter") or name in own:
                continue
            ds, leaf = dims_of(e.ty)
            if is_rec(leaf) and not all(t in ("i", "f", "g", "b") for _, t in comps(leaf)):
                continue
            for ax, d in enumerate(ds):
                if d == n:
                    cands.append((name, ax, ds, leaf))
        if not cands:
            return None
        name, ax, ds, leaf = self.r.choice(cands)
        items = [var(index, "i") if k == ax else self.item(d, env, 0) for k, d in enumerate(ds)]
        t = get(var(name, env[name].ty), *items)
        t.a["style"] = int(self.chance(0.4))
        if is_rec(leaf):
            k, _ = self.r.choice(comps(leaf))
            t = field(t, k)
        return t

    def anchor(self, body, acc):
        """make `body` contain the access `acc` without depending on it too much"""
        if is_rec(body.ty):
            if body.op == "rec":
                return body.with_args((self.anchor(body.args[0], acc), *body.args[1:]))
            ks = comps(body.ty)
            nm = self.fresh("t")
            v = var(nm, body.ty)
            return let(nm, body, rec(body.ty, *(
                self.anchor(field(v, k), acc) if j == 0 else field(v, k) for j, (k, _) in enumerate(ks))))
        if body.ty == acc.ty and body.ty in ("i", "f") and self.chance(0.7):
            k = self.r.choice(["add", "sub", "min", "max", "add"])
            return op(k, body.ty, *((body, acc) if self.chance(0.5) else (acc, body)))
        return Node("assume", body.ty, (body, acc))

    # ------------------------------------------------------------ scalars
    def atom(self, ty, env, b=0):
        opts = []
        vs = [k for k, e in env.items() if e.ty == ty]
        if vs:
            recent = vs[-3:]
            opts.append((2.0, lambda: var(self.r.choice(recent if self.chance(0.6) else vs), ty)))
        if any(p[1] for p in self.paths(env, ty)):
            opts.append((4.0, lambda: self.access(env, ty, b, True)))
        if ty == "f" and self.paths(env, "i"):
            opts.append((0.5, lambda: op("float", "f", self.atom("i", env, b))))
        opts.append((1.0 if ty != "g" else 0.6, lambda: self.literal(ty)))
        return self.pick(opts)

    def literal(self, ty):
        v = {
            "b": lambda: self.chance(0.5),
            "i": lambda: self.r.randint(-3, 5),
            "f": lambda: float(self.r.choice([-2, -1, 0, 1, 2, 3, 5])),
            "g": lambda: self.r.choice([0.5, -1.25, 0.1, 2.0, 3.7]),
        }[ty]()
        n = lit(v, ty)
        if self.chance(0.25):
            n.a["w"] = 1
        return n

    def scalar(self, ty, env, b):
        if b <= 0:
            return self.atom(ty, env)
        r = self.r
        o = [("atom", lambda: self.atom(ty, env, b))]
        if ty == "b":
            o += [("cmp", lambda: self.cmp(env, b)), ("logic", lambda: self.logic(env, b))]
        else:
            o += [("un", lambda: self.unary(ty, env, b)), ("bin", lambda: self.binary(ty, env, b))]
        o.append(("where", lambda: self.where(ty, env, b)))
        o.append(("fold", lambda: self.fold(ty, env, b)))
        if ty in "fg":
            o.append(("sum", lambda: self.stdfold(ty, env, b)))
            o.append(("einsum", lambda: self.einsum(ty, env, b)))
        if ty == "i":
            o.append(("argmin", lambda: self.argmin(env, b)))
            o.append(("countersum", lambda: self.countersum(env, b)))
            if self.size_paths(env, None):
                o.append(("size", lambda: self.size_node(None, env)))
        if ty != "b":
            o.append(("reduce", lambda: self.reduce(ty, env, b)))
        o.append(("let", lambda: self.let(ty, env, b)))
        o.append(("getx", lambda: self.getx(ty, env, b)))
        if self.p.recs:
            o.append(("recfield", lambda: self.recfield(ty, env, b)))
        if ty in "if":
            o.append(("ext", lambda: self.ext(ty, env, b)))
        o.append(("or_empty", lambda: self.or_empty(ty, env, b)))
        o.append(("assume", lambda: self.assume(ty, env, b)))
        return self.pick(o)

    def unary(self, ty, env, b):
        r = self.r
        if ty == "i":
            k = r.choice(["neg", "abs", "powi"])
            x = self.scalar("i", env, b - 1)
            if k == "powi":
                return op(k, "i", _nolit(x), n=r.choice([1, 2, 2, 3, 0]))
            return op(k, "i", _nolit(x), std=self.chance(0.3))
        if ty == "f":
            k = r.choice(["neg", "abs", "powi", "float", "float"])
            if k == "float":
                return op(k, "f", _nolit(self.scalar("i", env, b - 1)))
            x = _nolit(self.scalar("f", env, b - 1))
            if k == "powi":
                return op(k, "f", x, n=r.choice([1, 2, 2, 3, 4, 0]))
            return op(k, "f", x, std=self.chance(0.3))
        k = r.choice(["exp", "sin", "cos", "tanh", "neg", "abs", "div", "pow", "powi"])
        x = _nolit(self.scalar(r.choice("fg"), env, b - 1))
        if k == "exp":
            x = op("min", "g", op("max", "g", x, lit(-4.0)), lit(4.0))
        if k == "pow":
            base = op("add", "g", op("abs", "g", x), lit(0.5))
            base = op("min", "g", base, lit(8.0))
            return op("pow", "g", base, lit(r.choice([0.5, 2.0, -1.0, 1.5])))
        if k == "div":
            den = op("add", "g", op("mul", "g", x, x), lit(1.0))
            num = self.literal("g") if self.chance(0.4) else self.scalar("g", env, b // 2)
            return op("div", "g", num, den)
        if k == "powi":
            return op("powi", "g", op("add", "g", op("abs", "g", x), lit(0.5)), n=r.choice([-1, -2, 2, 3]))
        return op(k, "g", x)

    def binary(self, ty, env, b):
        r = self.r
        b1, b2 = self.split(b, 2)
        if ty == "i":
            k = r.choice(["add", "sub", "mul", "mod", "min", "max", "add", "sub"])
            x = self.scalar("i", env, b1)
            if k == "mod":
                return op(k, "i", x, lit(r.choice([2, 3, 5, 7, -3])))
            y = self.scalar("i", env, b2)
            return op(k, "i", *_notlits(x, y, k), std=k in ("min", "max") and self.chance(0.25))
        k = r.choice(["add", "sub", "mul", "min", "max", "add", "mul", "sub"])
        t = (lambda: r.choice("fgg")) if ty == "g" else (lambda: "f")
        x, y = self.scalar(t(), env, b1), self.scalar(t(), env, b2)
        return op(k, ty, *_notlits(x, y, k), std=k in ("min", "max") and self.chance(0.25))

    def cmp(self, env, b):
        t = self.r.choice("iif")
        b1, b2 = self.split(b, 2)
        k = self.r.choice(["lt", "le", "gt", "ge", "eq", "ne"])
        return op(k, "b", *_notlits(self.scalar(t, env, b1), self.scalar(t, env, b2), k))

    def logic(self, env, b):
        if self.chance(0.3):
            return op("not", "b", self.scalar("b", env, b - 1))
        b1, b2 = self.split(b, 2)
        return op(self.r.choice(["and", "or"]), "b", self.scalar("b", env, b1), self.scalar("b", env, b2))

    def where(self, ty, env, b):
        b1, b2, b3 = self.split(b, 3)
        return op("where", ty, self.scalar("b", env, b1), self.scalar(ty, env, b2), self.scalar(ty, env, b3), m=self.chance(0.4))

    # ------------------------------------------------------------ loops
    def count(self, env, own=(), allow_infer=True):
        """(n, count node or None)"""
        r = self.r
        n = self.dim()
        if allow_infer and self.chance(self.p.infer) and any(
            n in dims_of(e.ty)[0] for k, e in env.items() if e.kind not in ("index", "counter")
        ):
            return n, None
        x = r.random()
        if x < self.p.neg_count:
            return 0, lit(-r.randint(1, 3))
        cs = [k for k, e in env.items() if e.kind in ("counter", "dyn")]
        if cs and x < 0.12:
            k = r.choice(cs)
            if env[k].kind == "counter":
                return None, var(k, "i")
            return self.ivals[k], var(k, "i")
        if x < 0.2:
            n = r.randint(0, 4)
            return n, lit(n)
        return n, self.size_node(n, env, dyn=True)

    def fold(self, ty, env, b):
        r = self.r
        b1, b2 = self.split(b, 2)
        n, cnt = self.count(env)
        k, a = self.fresh("k"), self.fresh("a")
        init = self.gen(ty, env, b1 // 2)
        env2 = {**env, k: E("i", "counter", n if cnt is None else None), a: E(ty, "acc")}
        body = self.body_using(ty, env2, b2, a)
        if cnt is None:
            acc = self.direct_access(env, k, n, ())
            if acc is None:
                cnt = lit(n)
                body = body
            else:
                body = self.anchor(body, acc)
        t = fold(k, a, init, body, cnt)
        t.a["n"] = n
        return t

    def body_using(self, ty, env, b, a):
        """a loop body, usually using the accumulator and usually tame"""
        r = self.r
        if ty in ("i", "f", "g") and self.chance(0.6):
            e = self.scalar(ty, env, b - 1)
            k = r.choice(["add", "add", "sub", "min", "max", "mul"])
            x = (var(a, ty), e) if self.chance(0.6) else (e, var(a, ty))
            t = op(k, ty, *_notlits(*x, k))
            if ty == "i" and self.chance(0.5):
                t = op("mod", "i", t, lit(r.choice([5, 7, 11])))
            return t
        t = self.gen(ty, env, b)
        if ty == "i" and self.chance(0.3):
            t = op("mod", "i", t, lit(r.choice([5, 7, 11])))
        return t

    def stdfold(self, ty, env, b):
        r = self.r
        k = r.choice(["sum", "sum", "sum", "min", "max"])
        n, cnt = self.count(env)
        c = self.fresh("k")
        env2 = {**env, c: E("i", "counter", n if cnt is None else None)}
        mode = r.choice(["fold", "fold", "fold", "reduce", "hand"])
        if mode == "reduce" and cnt is not None and (n is None):
            mode = "fold"
        if mode == "reduce":
            env2[c] = E("i", "index", n if cnt is None else None)
            if cnt is not None and cnt.op == "lit" and cnt.a["v"] < 0:
                cnt = lit(0)
                n = 0
        body = self.scalar(ty, env2, b - 1)
        if cnt is None:
            acc = self.direct_access(env, c, n, ())
            if acc is None:
                cnt = lit(n)
            else:
                body = self.anchor(body, acc)
        if mode == "hand":
            a = self.fresh("a")
            init = self.literal(ty) if self.chance(0.6) else lit(0.0, ty)
            o = {"sum": "add"}.get(k, k)
            x = (var(a, ty), body) if self.chance(0.6) else (body, var(a, ty))
            t = fold(c, a, init, op(o, ty, *x), cnt)
            t.a["n"] = n
            return t
        return Node("stdfold", ty, (body, *(() if cnt is None else (cnt,))), k=f"{mode}_{k}", counter=c, n=n)

    def argmin(self, env, b):
        n, cnt = self.count(env)
        c = self.fresh("k")
        mode = self.r.choice(["fold", "reduce"])
        if n is None or (cnt is not None and cnt.op == "lit" and cnt.a["v"] < 0):
            n = 2
            cnt = lit(2)
        env2 = {**env, c: E("i", "counter" if mode == "fold" else "index", n if cnt is None else None)}
        body = self.scalar("f", env2, b - 1)
        if cnt is None:
            acc = self.direct_access(env, c, n, ())
            if acc is None:
                cnt = lit(n)
            else:
                body = self.anchor(body, acc)
        return Node("stdfold", "i", (body, *(() if cnt is None else (cnt,))), k=f"{mode}_argmin", counter=c, n=n)

    def einsum(self, ty, env, b):
        """nested sums of products: the shapes recognised as contractions"""
        r = self.r
        depth = r.choice([1, 1, 2, 2, 3])
        env2 = dict(env)
        loops = []
        for _ in range(depth):
            n = self.dim()
            c = self.fresh("k")
            ok = [k for k, e in env2.items() if e.kind not in ("index", "counter") and n in dims_of(e.ty)[0]]
            infer = bool(ok) and self.chance(0.6)
            env2[c] = E("i", "counter", n if infer else None)
            loops.append((c, n, infer))

        def factor():
            t = self.access(env2, ty if self.chance(0.8) else "f", 0, True)
            if t is None:
                t = self.atom(ty, env2)
            if self.chance(0.1):
                t = op("neg", ty, _nolit(t))
            return _retype(t, ty)

        def product():
            t = factor()
            for _ in range(r.randint(0, 2)):
                t = op("mul", ty, t, factor())
            return t

        t = product()
        for _ in range(r.choice([0, 0, 1])):
            t = op(r.choice(["add", "sub"]), ty, t, product())
        for c, n, infer in reversed(loops):
            cnt = None if infer else (lit(n) if self.chance(0.3) else self.size_node(n, env))
            if infer:
                acc = self.direct_access({k: e for k, e in env2.items() if env2[k].kind not in ("index", "counter")} | {c: env2[c]}, c, n, ())
                if acc is None:
                    cnt = lit(n)
                elif acc.ty in "fg" and ty in "fg" and not (ty == "f" and acc.ty == "g"):
                    t = op("mul", ty, t, _retype(acc, ty))
                else:
                    t = Node("assume", ty, (t, acc))
            t = Node("stdfold", ty, (t, *(() if cnt is None else (cnt,))), k="fold_sum", counter=c, n=n)
            if self.chance(0.2):
                t = op(r.choice(["mul", "add", "sub"]), ty, t, self.atom(ty, env2 if False else env))
        return t

    def countersum(self, env, b):
        """arrays whose size is a loop counter, consumed within the iteration"""
        k, a, i = self.fresh("k"), self.fresh("a"), self.fresh("i")
        self.dynamic = True
        env2 = {**env, k: E("i", "counter"), a: E("i", "acc")}
        inner = {**env2, i: E("i", "index")}
        v = Node("array", V(-1, "i"), (self.scalar("i", inner, b - 2), var(k, "i")), names=(i,), infer=False)
        x, y = self.fresh("p"), self.fresh("q")
        red = Node("reduce", "i", (v, lit(0), op("add", "i", var(x, "i"), var(y, "i"))), x=x, y=y)
        body = op("mod", "i", op("add", "i", var(a, "i"), red), lit(97))
        t = fold(k, a, lit(0), body, lit(self.r.randint(0, 4)))
        t.a["n"] = None
        return t

    # ------------------------------------------------------------ reduce
    def reduce(self, ty, env, b):
        r = self.r
        from .monoids import pick_monoid

        m = pick_monoid(self, ty, env)
        n = self.dim() if self.chance(0.6) else r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
        i = self.fresh("i")
        infer = self.chance(self.p.infer * 0.6)
        env2 = {**env, i: E("i", "index", n if infer else None)}
        elem = m.element(self, env2, b - 2)
        ex = None
        if infer:
            acc = self.direct_access(env, i, n, ())
            if acc is None or m.fragile:
                ex = [lit(n)]
            else:
                elem = self.anchor(elem, acc) if m.anchorable else elem
                if not m.anchorable:
                    ex = [lit(n)]
        else:
            ex = [self.size_node(n, env)]
        vec = array([i], [n], elem, ex)
        x, y = self.fresh("p"), self.fresh("q")
        t = Node("reduce", m.ty, (vec, m.identity(self, env), m.combine(self, var(x, m.ty), var(y, m.ty), env)), x=x, y=y)
        if self.chance(0.15):
            t.a["monoid"] = r.choice(["reduce", "fold"])
        return m.project(self, t)

    # ------------------------------------------------------------ sharing, records, misc
    def anytype(self, b, allow_rec=True):
        r = self.r
        x = r.random()
        if allow_rec and self.p.recs and x < 0.25:
            return self.rectype(b)
        if x < 0.65:
            leaf = self.rectype(b, 1) if allow_rec and self.p.recs and self.chance(0.1) else self.stype()
            return nd([self.dim() for _ in range(r.randint(1, 2))], leaf)
        return self.stype()

    def rectype(self, b, depth=0, leaf=None):
        r = self.r
        k = r.choice("ttdc")

        def sub():
            if leaf and self.chance(0.5):
                return leaf
            x = r.random()
            if depth < 1 and x < 0.15:
                return self.rectype(b, depth + 1)
            if x < 0.35:
                return V(self.dim(), self.stype())
            if depth < 1 and x < 0.42:
                return nd([self.dim() for _ in range(r.choice([1, 1, 2]))], self.rectype(b, depth + 1))
            return self.stype()

        if k == "t":
            return ("t", tuple(sub() for _ in range(r.choice([1, 2, 2, 2, 3, 4]))))
        if k == "d":
            ks = r.sample(KEYS, r.choice([1, 2, 2, 3]))
            return ("d", tuple((n, sub()) for n in ks))
        cls = r.choice(list(CLASSES))
        return ("c", cls, tuple((n, sub()) for n in CLASSES[cls]))

    def let(self, ty, env, b):
        b1, b2 = self.split(b, 2)
        nm = self.fresh("t")
        bind = self.gen(self.anytype(b1), env, b1)
        bind = self.noalias_deep(bind, env)
        if any(v in self.idxlets or env[v].kind == "index" for v in free_vars(bind) if v in env):
            self.idxlets.add(nm)
        return let(nm, bind, self.gen(ty, {**env, nm: E(bind.ty, "let")}, b2 + 1))

    def noalias_deep(self, t, env):
        t = self.noalias(t, env)
        if t.op == "rec":
            t = t.with_args([self.noalias_deep(x, env) for x in t.args])
        return t

    def getx(self, ty, env, b):
        b1, b2 = self.split(b, 2)
        n = self.dim()
        t = self.vec(V(n, ty), env, b1)
        return get(t, self.item(n, env, b2))

    def or_empty(self, ty, env, b):
        b1, b2 = self.split(b, 2)
        n = self.dim()
        return Node("or_empty", ty, (self.vec(V(n, ty), env, b1), self.item(n, env, 0), self.scalar(ty, env, b2)))

    def assume(self, ty, env, b):
        b1, b2 = self.split(b, 2)
        o = self.gen(self.anytype(b2), env, b2)
        t = self.gen(ty, env, b1)
        return Node("assume", ty, (t, o))

    def ext(self, ty, env, b):
        b1, b2 = self.split(b, 2)
        k = {"i": "ext_i", "f": "ext_f"}[ty]
        return Node("ext", ty, (self.scalar(ty, env, b1), self.scalar(ty, env, b2)), k=k)

    def recfield(self, ty, env, b):
        """a field of a record that went through a loop, an array, or a conditional"""
        rt = self.rectype(b, leaf=ty)
        if not any(t == ty for _, t in comps(rt)):
            return self.scalar(ty, env, b - 1)
        x = self.r.random()
        if x < 0.35:
            t = self.fold(rt, env, b - 1)
        elif x < 0.7:
            ns = [self.dim() for _ in range(self.r.choice([1, 1, 1, 2, 2, 3]))]
            t = get(self.vec(nd(ns, rt), env, b - 1), *(self.item(n, env, 0) for n in ns))
            t.a["style"] = self.r.randrange(2)
        else:
            b1, b2, b3 = self.split(b, 3)
            t = Node("wheres", rt, (self.scalar("b", env, b1), self.gen(rt, env, b2), self.gen(rt, env, b3)))
        nm = self.fresh("t")
        keys = [k for k, u in comps(rt) if u == ty]
        v = var(nm, rt)
        body = field(v, self.r.choice(keys))
        if len(keys) > 1 and ty in "if" and self.chance(0.7):
            body = op("sub", ty, field(v, keys[0]), field(v, keys[-1]))
        return let(nm, t, body)

    def record(self, ty, env, b):
        if b > 0:
            o = [(3.0, lambda: self.mkrec(ty, env, b))]
            if self.paths(env, ty):
                o.append((2.0, lambda: self.access(env, ty, b)))
            o.append((0.6, lambda: self.fold(ty, env, b)))
            o.append((0.6, lambda: self.wherer(ty, env, b)))
            o.append((0.4, lambda: self.let(ty, env, b)))
            o.append((0.5, lambda: self.getx(ty, env, b)))
            if len(comps(ty)) > 1:
                o.append((0.6, lambda: self.cross(ty, env, b)))
            return self.pick(o)
        if self.paths(env, ty) and self.chance(0.5):
            return self.access(env, ty, 0)
        return self.mkrec(ty, env, 0)

    def cross(self, ty, env, b):
        """a record made of components of two records of the same type"""
        srcs, binds = [], []
        for x in self.split(b, 2):
            if self.paths(env, ty) and self.chance(0.4):
                t = self.access(env, ty, x)
            else:
                t = self.pick([(1.0, lambda: self.fold(ty, env, x)), (0.7, lambda: self.wherer(ty, env, x)),
                               (0.7, lambda: self.getx(ty, env, x))])
            nm = self.fresh("t")
            bind = self.noalias_deep(t, env)
            if any(v in self.idxlets or env[v].kind == "index" for v in free_vars(bind) if v in env):
                self.idxlets.add(nm)
            binds.append((nm, bind))
            srcs.append(var(nm, ty))
        t = rec(ty, *(field(srcs[self.r.randrange(2)], k) for k, _ in comps(ty)))
        for nm, bind in reversed(binds):
            t = let(nm, bind, t)
        return t

    def wherer(self, ty, env, b):
        b1, b2, b3 = self.split(b, 3)
        return Node("wheres", ty, (self.scalar("b", env, b1), self.gen(ty, env, b2), self.gen(ty, env, b3)))

    def mkrec(self, ty, env, b):
        cs = comps(ty)
        bs = self.split(b, len(cs))
        return rec(ty, *(self.gen(t, env, x) for (_, t), x in zip(cs, bs)))

    # ------------------------------------------------------------ vectors
    def vec(self, ty, env, b):
        r = self.r
        exact = self.paths(env, ty)
        if b <= 0:
            if exact and self.chance(0.85):
                return self.access(env, ty, 0)
            return self.varray(ty, env, 0)
        o = [("varray", lambda: self.varray(ty, env, b))]
        if exact:
            o.append(("vvar", lambda: self.access(env, ty, b)))
        o.append(("concat", lambda: self.concat(ty, env, b)))
        o.append(("vfold", lambda: self.fold(ty, env, b)))
        o.append(("wheres", lambda: self.wherer(ty, env, b)))
        o.append(("vlet", lambda: self.let(ty, env, b)))
        o.append(("colon", lambda: Node("colon", ty, (self.vec(ty, env, b - 1),))))
        if not has_rec(ty):
            o.append(("slice", lambda: self.slice(ty, env, b)))
            if ty[2] in ("i", "f") or (is_vec(ty[2]) and ty[2][2] in ("i", "f")):
                o.append(("vreduce", lambda: self.vreduce(ty, env, b)))
        if self.p.recs and not has_rec(ty):
            o.append(("vrec", lambda: self.recfield_v(ty, env, b)))
        return self.pick(o)

    def recfield_v(self, ty, env, b):
        rt = self.rectype(b, leaf=ty)
        if not any(t == ty for _, t in comps(rt)):
            return self.vec(ty, env, b - 1)
        t = self.fold(rt, env, b - 1) if self.chance(0.6) else self.wherer(rt, env, b - 1)
        nm = self.fresh("t")
        keys = [k for k, u in comps(rt) if u == ty]
        return let(nm, t, field(var(nm, rt), self.r.choice(keys)))

    def varray(self, ty, env, b):
        r = self.r
        ds, leaf = dims_of(ty)
        k = 1 if len(ds) == 1 or b <= 0 and self.chance(0.3) else r.randint(1, len(ds))
        if b <= 0:
            k = len(ds)
        ds = ds[:k]
        bt = ty
        for _ in range(k):
            bt = bt[2]
        names = [self.fresh("i") for _ in ds]
        infer = self.chance(self.p.infer)
        if infer:
            for n in ds:
                if not any(n in dims_of(e.ty)[0] for e in env.values() if e.kind not in ("index", "counter")):
                    infer = False
        env2 = dict(env)
        for nm, n in zip(names, ds):
            env2[nm] = E("i", "index", n if infer else None)
        body = self.gen(bt, env2, b - 1)
        if infer:
            accs = [self.direct_access(env2, nm, n, set(names)) for nm, n in zip(names, ds)]
            if any(a is None for a in accs):
                return array(names, ds, body, [self.size_node(n, env, dyn=True) for n in ds])
            for a in accs:
                body = self.anchor(body, a)
            t = array(names, ds, body, None)
            if self.chance(0.1) and len(names) <= 4:
                t.a["typed"] = 1
            return t
        return array(names, ds, body, [self.size_node(n, env, dyn=True) for n in ds])

    def concat(self, ty, env, b):
        n = ty[1]
        k = self.r.choice([2, 2, 3])
        cuts = sorted(self.r.randint(0, n) for _ in range(k - 1))
        parts = [y - x for x, y in zip([0, *cuts], [*cuts, n])]
        bs = self.split(b, k)
        return Node("concat", ty, [self.vec(("v", m, ty[2]), env, x) for m, x in zip(parts, bs)], std=self.chance(0.3))

    def slice(self, ty, env, b):
        # t[:, item]: pick the axis after the first
        ds, leaf = dims_of(ty)
        k = self.r.randint(1, len(ds))
        m = self.dim()
        tt = nd([*ds[:k], m, *ds[k:]], leaf)
        t = self.vec(tt, env, b - 1)
        return Node("slice", ty, (t, self.item_free(m, env)), k=k)

    def item_free(self, n, env):
        return self.noalias(self.item(n, env, 0), env)

    def vreduce(self, ty, env, b):
        """reduce a vector of vectors with an elementwise monoid"""
        r = self.r
        from .monoids import vector_monoid

        m = vector_monoid(self, ty, env)
        n = r.choice([0, 1, 2, 3, 4, 5])
        i = self.fresh("i")
        env2 = {**env, i: E("i", "index", None)}
        elem = self.vec(ty, env2, b - 2)
        vec = array([i], [n], elem, [self.size_node(n, env)])
        x, y = self.fresh("p"), self.fresh("q")
        return Node("reduce", ty, (vec, m.identity(self, env), m.combine(self, var(x, ty), var(y, ty), env)), x=x, y=y)


def _nolit(x):
    if x.op == "lit":
        x.a["w"] = 1
    return x


def _notlits(x, y, k):
    if x.op == "lit" and (y.op == "lit" or k in ("min", "max")):
        x.a["w"] = 1
    return x, y


def _retype(t, want):
    if t.ty != want:
        t = t.with_args(t.args)
        t.ty = want
    return t

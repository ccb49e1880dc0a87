"""A library of monoids over Ein values (identity, combine, element), for Vec.reduce."""
from __future__ import annotations

from .lang import Node, V, array, dims_of, field, fold, get, lit, nd, op, rec, var


class M:
    anchorable = True
    fragile = False

    def __init__(self, ty, ident, comb, elem=None, proj=None):
        self.ty, self._i, self._c, self._e, self._p = ty, ident, comb, elem, proj

    def identity(self, g, env):
        return self._i()

    def combine(self, g, x, y, env):
        return self._c(x, y)

    def element(self, g, env, b):
        return self._e(env, b) if self._e else g.gen(self.ty, env, b)

    def project(self, g, t):
        return self._p(t) if self._p else t


def _simple(g, ty):
    r = g.r
    if ty == "i":
        k = r.choice(["add", "mul", "min", "max"])
        i = {"add": 0, "mul": 1, "min": 1 << 30, "max": -(1 << 30)}[k]
    else:
        k = r.choice(["add", "mul", "min", "max"])
        i = {"add": 0.0, "mul": 1.0, "min": float("inf"), "max": float("-inf")}[k]
    w = g.chance(0.5)

    def ident():
        t = lit(i, ty)
        if w:
            t.a["w"] = 1
        return t

    return M(ty, ident, lambda x, y: op(k, ty, x, y))


def _param(g, ty, env):
    """x + y + p with identity -p: the combining function depends on the context"""
    p = g.atom(ty, env)
    nm = g.fresh("t")
    p = g.noalias(p, env)
    neg = lambda: op("neg", ty, _w(p))
    return M(ty, neg, lambda x, y: op("add", ty, op("add", ty, x, y), p))


def _w(p):
    if p.op == "lit":
        p.a["w"] = 1
    return p


def _mod(e, m):
    return op("mod", "i", e, lit(m))


def _letp(g, t, body):
    nm = g.fresh("t")
    from .lang import let

    return let(nm, t, body(var(nm, t.ty)))


def _kind(g, tys):
    k = g.r.choice("tdc") if len(tys) in (2, 3) else g.r.choice("td")
    if k == "t":
        return ("t", tuple(tys))
    if k == "d":
        names = g.r.sample(["a", "b", "c", "m", "key", "z", "x"], len(tys))
        return ("d", tuple(zip(names, tys)))
    cls = {2: ("P2", ("x", "y")), 3: ("P3", ("lo", "hi", "tag"))}[len(tys)]
    return ("c", cls[0], tuple(zip(cls[1], tys)))


def _keys(ty):
    from .lang import comps

    return [k for k, _ in comps(ty)]


def _affine(g):
    m = g.r.choice([5, 7, 11])
    ty = _kind(g, ["i", "i"])
    a, b = _keys(ty)

    def comb(x, y):
        return rec(
            ty,
            _mod(op("mul", "i", field(x, a), field(y, a)), m),
            _mod(op("add", "i", op("mul", "i", field(x, b), field(y, a)), field(y, b)), m),
        )

    def elem(env, bud):
        return rec(ty, _mod(g.scalar("i", env, bud // 2), m), _mod(g.scalar("i", env, bud // 2), m))

    t = M(ty, lambda: rec(ty, lit(1), lit(0)), comb, elem,
          lambda t: _letp(g, t, lambda v: op("add", "i", op("mul", "i", field(v, a), lit(100)), field(v, b))))
    t.anchorable = False
    return t


def _mat2(g):
    m = g.r.choice([5, 7])
    ty = _kind(g, ["i"] * 4)
    k = _keys(ty)

    def comb(x, y):
        X, Y = [field(x, q) for q in k], [field(y, q) for q in k]
        mul = lambda p, q: op("mul", "i", p, q)
        return rec(ty, *(
            _mod(op("add", "i", mul(X[2 * i], Y[j]), mul(X[2 * i + 1], Y[2 + j])), m)
            for i in range(2) for j in range(2)))

    def elem(env, bud):
        return rec(ty, *(_mod(g.scalar("i", env, bud // 4), m) for _ in range(4)))

    t = M(ty, lambda: rec(ty, lit(1), lit(0), lit(0), lit(1)), comb, elem,
          lambda t: _letp(g, t, lambda v: _poly(v, k)))
    t.anchorable = False
    return t


def _poly(v, k):
    e = field(v, k[0])
    for q in k[1:]:
        e = op("add", "i", op("mul", "i", e, lit(13)), field(v, q))
    return e


def _first(g, ty, last=False):
    """the first (last) element: associative, not commutative"""
    rt = _kind(g, ["b", ty])
    f, v = _keys(rt)
    zero = lit(0) if ty == "i" else lit(0.0, ty)

    def comb(x, y):
        c = field(y, f) if last else field(x, f)
        p, q = (y, x) if last else (x, y)
        return Node("wheres", rt, (c, p, q))

    def elem(env, b):
        return rec(rt, lit(True), g.scalar(ty, env, b))

    t = M(rt, lambda: rec(rt, lit(False), zero), comb, elem,
          lambda t: _letp(g, t, lambda w: field(w, v)))
    t.anchorable = False
    return t


def _maxseg(g):
    ty = _kind(g, ["i"] * 4)
    k = _keys(ty)

    def comb(x, y):
        s, p, u, b = (field(x, q) for q in k)
        s2, p2, u2, b2 = (field(y, q) for q in k)
        add = lambda a, c: op("add", "i", a, c)
        mx = lambda a, c: op("max", "i", a, c)
        return rec(ty, add(s, s2), mx(p, add(s, p2)), mx(u2, add(s2, u)), mx(mx(b, b2), add(u, p2)))

    def elem(env, bud):
        nm = g.fresh("t")
        from .lang import let

        e = g.noalias(g.scalar("i", env, bud), env)
        v = var(nm, "i")
        pos = lambda: op("max", "i", v, lit(0))
        return let(nm, e if e.op != "lit" else _w(e), rec(ty, v, pos(), pos(), pos()))

    t = M(ty, lambda: rec(ty, lit(0), lit(0), lit(0), lit(0)), comb, elem,
          lambda t: _letp(g, t, lambda v: _poly(v, k)))
    t.anchorable = False
    return t


def _argmin(g, ty):
    rt = _kind(g, ["f", "i"])
    v, j = _keys(rt)

    def comb(x, y):
        return Node("wheres", rt, (op("le", "b", field(x, v), field(y, v)), x, y))

    def elem(env, b):
        i = [q for q, e in env.items() if e.kind == "index"][-1]
        return rec(rt, g.scalar("f", env, b), var(i, "i"))

    t = M(rt, lambda: rec(rt, lit(float("inf")), lit(0)), comb, elem,
          lambda t: _letp(g, t, lambda w: field(w, j) if ty == "i" else field(w, v)))
    t.anchorable = False
    return t


def _matvec(g):
    """k-by-k matrices (vectors of vectors) modulo m, multiplied by a fold or a sum"""
    m = g.r.choice([5, 7])
    k = g.r.choice([1, 2, 2, 3])
    ty = nd([k, k], "i")

    def comb(x, y):
        i, j, c, a = (g.fresh(s) for s in "ijka")
        I, J, C = var(i, "i"), var(j, "i"), var(c, "i")
        prod = op("mul", "i", get(x, I, C), get(y, C, J))
        body = op("add", "i", var(a, "i"), prod)
        s = fold(c, a, lit(0), body, None if g.chance(0.5) else lit(k))
        s.a["n"] = k
        return array([i, j], [k, k], _mod(s, m), [lit(k), lit(k)])

    def ident():
        i, j = g.fresh("i"), g.fresh("j")
        return array([i, j], [k, k], op("where", "i", op("eq", "b", var(i, "i"), var(j, "i")), lit(1), lit(0)), [lit(k), lit(k)])

    def elem(env, b):
        from .gen import E

        i, j = g.fresh("i"), g.fresh("j")
        env2 = {**env, i: E("i", "index"), j: E("i", "index")}
        return array([i, j], [k, k], _mod(g.scalar("i", env2, b), m), [lit(k), lit(k)])

    def proj(t):
        r = g.r.randint(0, k - 1), g.r.randint(0, k - 1)
        return get(t, lit(r[0]), lit(r[1]))

    t = M(ty, ident, comb, elem, proj)
    t.anchorable = False
    return t


def pick_monoid(g, ty, env):
    r = g.r
    x = r.random()
    if ty == "i":
        c = r.choice(["simple", "simple", "param", "affine", "mat2", "first", "last", "maxseg", "argmin", "matvec"])
    else:
        c = r.choice(["simple", "simple", "param", "first", "last", "argmin"] if ty == "f" else ["simple", "param"])
    if not g.p.recs and c in ("affine", "mat2", "first", "last", "maxseg", "argmin"):
        c = "simple"
    if c == "simple":
        return _simple(g, ty)
    if c == "param":
        return _param(g, ty, env)
    return {"affine": lambda: _affine(g), "mat2": lambda: _mat2(g), "first": lambda: _first(g, ty),
            "last": lambda: _first(g, ty, True), "maxseg": lambda: _maxseg(g),
            "argmin": lambda: _argmin(g, ty), "matvec": lambda: _matvec(g)}[c]()


def vector_monoid(g, ty, env):
    ds, s = dims_of(ty)
    k = g.r.choice(["add", "min", "max"])
    big = {"add": 0, "min": 1 << 30, "max": -(1 << 30)}[k]
    z = (lambda: lit(big)) if s == "i" else (lambda: lit(float(big)))

    def each(f, ex):
        names = [g.fresh("i") for _ in ds]
        body = f([var(n, "i") for n in names])
        return array(names, ds, body, ex)

    def comb(x, y):
        infer = g.chance(0.5)
        ex = None if infer else [lit(d) for d in ds]
        if not infer and g.chance(0.5):
            ex = [Node("size", "i", (x,), axis=a) for a in range(len(ds))]
        return each(lambda I: op(k, s, get(x, *I), get(y, *I)), ex)

    return M(ty, lambda: each(lambda I: (lambda t: (t.a.update(w=1), t)[1])(z()), [lit(d) for d in ds]), comb)

"""Monoids reduced over every length, in several contexts (C07)."""
from __future__ import annotations

from dataclasses import dataclass

import numpy

from .w_idioms import shadowed

M = 7


@dataclass(frozen=True)
class Lin:
    a: object
    b: object


@dataclass(frozen=True)
class Seg:
    total: object
    pre: object
    suf: object
    best: object


def monoids(E):
    """name -> (identity, combine, element from (int, float, position), scalar read-out)"""
    W = E.where
    k = 2
    mat = lambda f: E.array(f, size=(k, k))

    def matmul(a, b):
        return mat(lambda i, j: E.fold(0, lambda q, s: s + a[i, q] * b[q, j], count=k) % M)

    return {
        "isum": (E.wrap(0), lambda x, y: x + y, lambda u, v, i: u, lambda r: r.float()),
        "fsum": (E.wrap(0.0), lambda x, y: x + y, lambda u, v, i: v, lambda r: r),
        "prod": (E.wrap(1), lambda x, y: (x * y) % 1009, lambda u, v, i: (u + 2) % 1009, lambda r: r.float()),
        "min": (E.wrap(float("inf")), lambda x, y: x.min(y), lambda u, v, i: v, lambda r: r),
        "max": (E.wrap(float("-inf")), lambda x, y: x.max(y), lambda u, v, i: v, lambda r: r),
        "and": (E.wrap(True), lambda x, y: x & y, lambda u, v, i: v < 4.0, lambda r: W(r, 1.0, 0.0)),
        "or": (E.wrap(False), lambda x, y: x | y, lambda u, v, i: u == 3, lambda r: W(r, 1.0, 0.0)),
        "xor": (E.wrap(False), lambda x, y: (x & ~y) | (~x & y), lambda u, v, i: u > 1, lambda r: W(r, 1.0, 0.0)),
        # associative and not commutative
        "affine": ((E.wrap(1), E.wrap(0)), lambda x, y: ((x[0] * y[0]) % M, (x[1] * y[0] + y[1]) % M),
                   lambda u, v, i: (u % M, (u + i) % M), lambda r: (r[0] * 10 + r[1]).float()),
        "affine_cls": (Lin(E.wrap(1), E.wrap(0)), lambda x, y: Lin((x.a * y.a) % M, (x.b * y.a + y.b) % M),
                       lambda u, v, i: Lin((u + 3) % M, (u + i) % M), lambda r: (r.a * 10 + r.b).float()),
        "first": ({"some": E.wrap(False), "val": E.wrap(0.0)}, lambda x, y: W(x["some"], x, y),
                  lambda u, v, i: {"some": u > 0, "val": W(u > 0, v, 0.0)}, lambda r: r["val"]),
        "last": ({"some": E.wrap(False), "val": E.wrap(0.0)}, lambda x, y: W(y["some"], y, x),
                 lambda u, v, i: {"some": u > 0, "val": W(u > 0, v, 0.0)}, lambda r: r["val"]),
        "argmin": ((E.wrap(float("inf")), E.wrap(0)), lambda x, y: W(x[0] <= y[0], x, y),
                   lambda u, v, i: (v, i), lambda r: r[1].float()),
        "segment": (Seg(*(E.wrap(0) for _ in range(4))),
                    lambda x, y: Seg(x.total + y.total, x.pre.max(x.total + y.pre), y.suf.max(y.total + x.suf),
                                     x.best.max(y.best).max(x.suf + y.pre)),
                    lambda u, v, i: Seg(u, u.max(0), u.max(0), u.max(0)),
                    lambda r: (((r.total * 97 + r.pre) * 97 + r.suf) * 97 + r.best).float()),
        "nested": ((E.wrap(0), (E.wrap(1), E.wrap(0.0))),
                   lambda x, y: (x[0] + y[0], ((x[1][0] * y[1][0]) % M, x[1][1].max(y[1][1]))),
                   lambda u, v, i: (u, ((u + 2) % M, v)), lambda r: r[0].float() * 100.0 + r[1][0].float() * 10.0 + r[1][1]),
        "matrix": (mat(lambda i, j: W(i == j, E.wrap(1), E.wrap(0))), matmul,
                   lambda u, v, i: mat(lambda p, q: (u + p * 2 + q * i) % M),
                   lambda r: (r[0, 0] + r[0, 1] * 10 + r[1, 0] * 100 + r[1, 1] * 1000).float()),
        "vecmax": (E.array(lambda t: E.wrap(-100), size=3), lambda x, y: E.array(lambda t: x[t].max(y[t])),
                   lambda u, v, i: E.array(lambda t: u - t * i, size=3), lambda r: (r[0] + r[1] * 10 + r[2] * 100).float()),
        "vec_and_scalar": ((E.array(lambda t: E.wrap(0.0), size=2), E.wrap(0)),
                           lambda x, y: (E.array(lambda t: x[0][t] + y[0][t], size=2), x[1].max(y[1])),
                           lambda u, v, i: (E.array(lambda t: v + t.float(), size=2), u),
                           lambda r: r[0][0] + 10.0 * r[0][1] + 100.0 * r[1].float()),
        "rank_one": ((E.wrap(False), E.wrap(0), E.wrap(0)),
                     lambda x, y: (x[0] | y[0], W(x[0], x[1], y[1]), W(y[0], y[2], x[2])),
                     lambda u, v, i: (u > -2, W(u > -2, u, 0), W(u > -2, u, 0)), lambda r: (r[1] * 11 + r[2]).float()),
        "shared": ((E.wrap(0), E.wrap(0)), lambda x, y: (lambda t: (t, t + x[0] * 0))(x[0] + y[0]),
                   lambda u, v, i: (u, u), lambda r: (r[0] + r[1] * 100).float()),
    }


NAMES = ["isum", "fsum", "prod", "min", "max", "and", "or", "xor", "affine", "affine_cls", "first", "last", "argmin",
         "segment", "nested", "matrix", "vecmax", "vec_and_scalar", "rank_one", "shared"]
CONTEXTS = ["top", "rows", "rows_ctx", "fold", "monoid_fold", "monoid_reduce", "twice", "cols", "slice_of", "prefix", "init_acc", "std"]


def program(name, ctx):
    def fun(E, u, v, t):
        ident, comb, elem, out = monoids(E)[name]
        red = lambda vec: out(vec.reduce(ident, comb))
        if ctx == "top":
            return red(E.array(lambda i: elem(u[0, i], v[0, i], i)))
        if ctx == "rows":
            return E.array(lambda r: red(E.array(lambda i: elem(u[r, i], v[r, i], i))))
        if ctx == "cols":
            return E.array(lambda i, q: red(E.array(lambda r: elem(u[r, i], v[r, i], r))), size=(u.size(1), 2))
        if ctx == "rows_ctx":  # elements computed in the context of the row, plus something of it outside
            return E.array(lambda r: red(E.array(lambda i: elem(u[r, i] + t[r], v[r, i], i))) + t[r].float())
        if ctx == "fold":  # reduced anew on each iteration
            return E.array(lambda r: E.fold(0.0, lambda k, a: a * 2.0 + red(E.array(lambda i: elem((u[r, i] + k) % 5, v[r, i], i))), count=2))
        if ctx == "monoid_fold":
            return E.array(lambda r: out(E.Monoid(ident, comb).fold(lambda i: elem(u[r, i], v[r, i], i), count=u.size(1))))
        if ctx == "monoid_reduce":
            return E.array(lambda r: out(E.Monoid(ident, comb).reduce(lambda i: elem(u[r, i], v[r, i], i), count=u.size(1))))
        if ctx == "twice":
            vec = E.array(lambda i: elem(u[0, i], v[0, i], i))
            return red(vec) + red(vec.concat(vec)) * 3.0
        if ctx == "slice_of":  # batches of vectors built outside
            vecs = E.array(lambda r, i: elem(u[r, i], v[r, i], i))
            return E.array(lambda r: red(vecs[r]))
        if ctx == "prefix":  # every prefix, by masking
            return E.array(lambda m: red(E.array(lambda i: E.where(i <= m, elem(u[0, i], v[0, i], i), ident))), size=u.size(1))
        if ctx == "init_acc":  # reductions of a computed, shifted vector
            return E.array(lambda r: red(E.array(lambda i: elem(u[r, i - 1], v[r, i + 1], i), size=u.size(1))))
        # std
        x = lambda r: (lambda i: v[r, i])
        return E.array(lambda r: (E.reduce_sum(x(r)) + E.fold_sum(x(r)) * 3.0
                                  + E.reduce_argmin(x(r)).float() * 7.0 + E.fold_argmin(x(r)).float() * 50.0)
                       + E.where(v.size(1) > 0, E.reduce_min(x(r)) + E.reduce_max(x(r)) * 2.0 + E.fold_min(x(r)) * 5.0
                                 + E.fold_max(x(r)) * 11.0, 0.0))

    return fun


LENGTHS = list(range(0, 34)) + [37, 40, 47, 48, 63, 64, 65, 71, 96, 100, 127, 128, 129]


def lengths(c, backends, longest=129):
    r = c.rng("reduce")
    ls = [n for n in LENGTHS if n <= longest]
    name = NAMES[c.index % len(NAMES)]
    ctx = r.choice(CONTEXTS)
    n = r.choice(ls) if r.random() < 0.6 else r.choice([0, 1, 2, 3, 5, 6, 7])
    if ctx in ("fold", "prefix", "cols") and n > 34:
        n %= 34
    rows = r.choice([0, 1, 2, 3]) if ctx not in ("top", "twice", "prefix") else 1
    u = numpy.array([[r.randint(-3, 4) for _ in range(n)] for _ in range(rows)], numpy.int64).reshape(rows, n)
    v = numpy.array([[float(r.randint(-9, 9)) for _ in range(n)] for _ in range(rows)], numpy.float64).reshape(rows, n)
    if ctx == "cols":
        u, v = u.T.copy(), v.T.copy()
        rows, n = n, rows
    t = numpy.array([r.randint(0, 3) for _ in range(rows)], numpy.int64)
    ok = shadowed(c, f"reduce {name} in {ctx}, {rows} x {n}", program(name, ctx), "f", [u, v, t], backends, r,
                  info=dict(monoid=name, context=ctx, n=n))
    c.seen(name, ctx, n, rows)
    c.event(f"length:{min(n, 130)}")
    c.sample(dict(monoid=name, context=ctx, rows=rows, n=n))
    return ok

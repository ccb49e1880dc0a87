"""The oracle: pointwise evaluation of a program in plain Python.

Shares no code with Ein.  Vectors are lists, records are tuples, scalars are
Python numbers.  POISON stands for a value the language leaves open (an element
read from an empty axis); it is absorbing and matches anything.
"""
from __future__ import annotations

import math

from .lang import Node, comps, is_rec, is_vec


class Reject(Exception):
    """The program leaves the domain in which its meaning is exact."""


class _Poison:
    def __repr__(self):
        return "POISON"


POISON = _Poison()


def poison_of(ty):
    if is_vec(ty):
        return [poison_of(ty[2]) for _ in range(ty[1])]
    if is_rec(ty):
        return tuple(poison_of(t) for _, t in comps(ty))
    return POISON


def _cmp_nan(x, y):
    return x != x or y != y


class Ref:
    def __init__(self, exts=None, limit=2.0**40, steps=200000):
        self.exts = exts or {}
        self.limit = limit
        self.steps = steps
        self.mag = 1.0
        self.stats = {}

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def chk(self, v):
        if v is POISON or isinstance(v, bool):
            return v
        m = abs(v)
        if m != m or m == math.inf:
            return v
        if m > self.limit:
            raise Reject("magnitude")
        if m > self.mag:
            self.mag = m
        return v

    def scalar_op(self, n, xs):
        k = n.a["k"]
        if k == "where":
            c, t, f = xs
            if c is POISON:
                return POISON
            return t if c else f
        if any(x is POISON for x in xs):
            return POISON
        if k == "add":
            r = xs[0] + xs[1]
        elif k == "sub":
            r = xs[0] - xs[1]
        elif k == "mul":
            for x in xs:
                if isinstance(x, float) and not math.isfinite(x):
                    raise Reject("nonfinite product")
            r = xs[0] * xs[1]
        elif k == "mod":
            if xs[1] == 0:
                raise Reject("mod 0")
            r = xs[0] % xs[1]
        elif k in ("min", "max"):
            r = xs[0]
            for y in xs[1:]:
                if _cmp_nan(r, y):
                    r = math.nan
                elif k == "min":
                    r = y if y < r else r
                else:
                    r = y if y > r else r
        elif k == "neg":
            r = -xs[0]
        elif k == "not":
            return not xs[0]
        elif k == "and":
            return xs[0] and xs[1]
        elif k == "or":
            return xs[0] or xs[1]
        elif k == "lt":
            return xs[0] < xs[1]
        elif k == "le":
            return xs[0] <= xs[1]
        elif k == "gt":
            return xs[0] > xs[1]
        elif k == "ge":
            return xs[0] >= xs[1]
        elif k == "eq":
            return xs[0] == xs[1]
        elif k == "ne":
            return xs[0] != xs[1]
        elif k == "float":
            r = float(xs[0])
        elif k == "abs":
            r = abs(xs[0])
        elif k == "powi":
            e = n.a["n"]
            if isinstance(xs[0], float) and not math.isfinite(xs[0]):
                raise Reject("nonfinite power")
            if e < 0:
                if abs(xs[0]) < 1e-3:
                    raise Reject("small divisor")
                r = float(xs[0]) ** e
            else:
                r = xs[0] ** e
        elif k in ("exp", "sin", "cos", "tanh"):
            x = xs[0]
            if x != x or abs(x) > (30 if k == "exp" else 1e4):
                raise Reject("argument")
            r = getattr(math, k)(x)
        elif k == "div":
            if not math.isfinite(xs[1]) or abs(xs[1]) < 1e-3 or not math.isfinite(xs[0]):
                raise Reject("small divisor")
            r = xs[0] / xs[1]
        elif k == "pow":
            if not (1e-3 <= xs[0] <= 1e3) or not abs(xs[1]) <= 8:
                raise Reject("power domain")
            r = math.pow(xs[0], xs[1])
        else:
            raise AssertionError(k)
        return self.chk(r)

    def index(self, t, i, elem_ty):
        if not t:
            self.note("get_empty")
            return poison_of(elem_ty)
        if i is POISON:
            return poison_of(elem_ty)
        if i < 0:
            self.note("get_low")
        elif i >= len(t):
            self.note("get_high")
        else:
            self.note("get_in")
        return t[min(max(i, 0), len(t) - 1)]

    def _int(self, v):
        if v is POISON:
            raise Reject("poison size")
        return v

    def ev(self, n: Node, env):
        self.steps -= 1
        if self.steps < 0:
            raise Reject("steps")
        ev = self.ev
        o = n.op
        A = n.args
        if o == "lit":
            return n.a["v"]
        if o == "var":
            return env[n.a["name"]]
        if o == "op":
            return self.scalar_op(n, [ev(x, env) for x in A])
        if o == "get":
            v = ev(A[0], env)
            ty = A[0].ty
            for it in A[1:]:
                ty = ty[2]
                v = self.index(v, ev(it, env), ty)
            return v
        if o == "slice":
            t, it = ev(A[0], env), ev(A[1], env)
            ty = A[0].ty
            for _ in range(n.a["k"] + 1):
                ty = ty[2]

            def rec(v, k):
                return self.index(v, it, ty) if k == 0 else [rec(w, k - 1) for w in v]

            return rec(t, n.a["k"])
        if o == "colon":
            return ev(A[0], env)
        if o == "size":
            # sizes come from the static type: rectangular by construction
            t = A[0].ty
            v = ev(A[0], env)
            for _ in range(n.a["axis"]):
                if not v:
                    for _ in range(n.a["axis"]):
                        t = t[2]
                    return t[1]
                v = v[0]
            return len(v)
        if o == "array":
            body, *ex = A
            names = n.a["names"]
            if ex:
                ns = [self._int(ev(x, env)) for x in ex]
            else:
                t, ns = n.ty, []
                for _ in names:
                    ns.append(t[1])
                    t = t[2]

            def go(k, e):
                if k == len(names):
                    return ev(body, e)
                return [go(k + 1, {**e, names[k]: i}) for i in range(max(ns[k], 0))]

            return go(0, env)
        if o == "concat":
            r = []
            for x in A:
                r = r + ev(x, env)
            return r
        if o == "fold":
            init, body, *c = A
            acc = ev(init, env)
            cnt = self._int(ev(c[0], env)) if c else n.a["n"]
            self.note("fold0" if cnt <= 0 else "fold1" if cnt == 1 else "foldn")
            for i in range(max(cnt, 0)):
                acc = ev(body, {**env, n.a["counter"]: i, n.a["acc"]: acc})
            return acc
        if o == "stdfold":
            body, *c = A
            cnt = self._int(ev(c[0], env)) if c else n.a["n"]
            self.note("fold0" if cnt <= 0 else "fold1" if cnt == 1 else "foldn")
            xs = [ev(body, {**env, n.a["counter"]: i}) for i in range(max(cnt, 0))]
            k = n.a["k"].split("_")[1]
            if any(x is POISON for x in xs):
                return POISON
            if k == "sum":
                r = 0.0
                for x in xs:
                    r = self.chk(r + x)
                return r
            if k in ("min", "max"):
                r = math.inf if k == "min" else -math.inf
                for x in xs:
                    if _cmp_nan(r, x):
                        r = math.nan
                    elif (x < r) if k == "min" else (x > r):
                        r = x
                return r
            if k == "argmin":
                b, bi = math.inf, 0
                for i, x in enumerate(xs):
                    if x != x:
                        raise Reject("nan argmin")
                    if not b <= x:
                        b, bi = x, i
                return bi
            raise AssertionError(k)
        if o == "reduce":
            vec = ev(A[0], env)
            acc = ev(A[1], env)
            self.note("reduce%d" % min(len(vec), 9))
            for v in vec:
                acc = ev(A[2], {**env, n.a["x"]: acc, n.a["y"]: v})
            return acc
        if o == "rec":
            return tuple(ev(x, env) for x in A)
        if o == "field":
            ks = [k for k, _ in comps(A[0].ty)]
            return ev(A[0], env)[ks.index(n.a["key"])]
        if o == "let":
            return ev(A[1], {**env, n.a["name"]: ev(A[0], env)})
        if o == "wheres":
            c = ev(A[0], env)
            t, f = ev(A[1], env), ev(A[2], env)
            if c is POISON:
                return poison_of(n.ty)
            return t if c else f
        if o == "or_empty":
            v = ev(A[0], env)
            i = ev(A[1], env)
            d = ev(A[2], env)
            return self.index(v, i, n.ty) if v else d
        if o == "assume":
            ev(A[1], env)
            return ev(A[0], env)
        if o == "ext":
            xs = [ev(x, env) for x in A]
            return self.exts[n.a["k"]](xs, n)
        raise AssertionError(o)


def has_poison(v):
    if isinstance(v, (list, tuple)):
        return any(map(has_poison, v))
    return v is POISON

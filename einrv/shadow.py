"""A second oracle: Ein's frontend, executed eagerly on plain Python values.

The same Python function (einrv/idioms.py) can be given this module's names or Ein's.
Sizes left out are found by probing: the body is run once at index 0, and whatever is
indexed directly by the probe tells its length.
"""
from __future__ import annotations

import functools
import inspect
import math
from dataclasses import fields, is_dataclass

from .ref import POISON


class ShadowReject(Exception):
    """outside of the domain in which the oracle knows the answer"""


class Undetermined(Exception):
    """the size of a comprehension cannot be inferred"""


class Probe:
    def __init__(self):
        self.sizes = []


def val(x):
    if isinstance(x, S):
        return x.v
    return x


def lift(x):
    return x if isinstance(x, (S, SV)) else S(x)


def _op(f):
    def g(self, *others):
        vs = [self.v, *(val(o) for o in others)]
        if any(v is POISON for v in vs):
            return S(POISON)
        return S(_chk(f(*vs)))

    return g


def _chk(v):
    if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 2**60:
        raise ShadowReject("integer range")
    return v


def _div(a, b):
    if b == 0 or a != a or b != b:
        raise ShadowReject("division")
    return a / b


def _mod(a, b):
    if b == 0:
        raise ShadowReject("mod 0")
    return a % b


def _mn(a, b):
    return math.nan if a != a or b != b else (b if b < a else a)


def _mx(a, b):
    return math.nan if a != a or b != b else (b if b > a else a)


def _exp(a):
    return math.exp(a) if a < 700 else math.inf


class S:
    __slots__ = ("v", "probe")

    def __init__(self, v, probe=None):
        if hasattr(v, "item"):
            v = v.item()
        self.v, self.probe = v, probe

    def __bool__(self):
        raise TypeError("no truth value")

    __hash__ = None
    __add__ = _op(lambda a, b: a + b)
    __radd__ = _op(lambda a, b: b + a)
    __sub__ = _op(lambda a, b: a - b)
    __rsub__ = _op(lambda a, b: b - a)
    __mul__ = _op(lambda a, b: a * b)
    __rmul__ = _op(lambda a, b: b * a)
    __truediv__ = _op(_div)
    __rtruediv__ = _op(lambda a, b: _div(b, a))
    __mod__ = _op(_mod)
    __neg__ = _op(lambda a: -a)
    __lt__ = _op(lambda a, b: a < b)
    __le__ = _op(lambda a, b: a <= b)
    __gt__ = _op(lambda a, b: a > b)
    __ge__ = _op(lambda a, b: a >= b)
    __eq__ = _op(lambda a, b: a == b)
    __ne__ = _op(lambda a, b: a != b)
    __and__ = _op(lambda a, b: a and b)
    __or__ = _op(lambda a, b: a or b)
    __invert__ = _op(lambda a: not a)
    min = _op(_mn)
    max = _op(_mx)
    abs = _op(abs)
    __abs__ = abs
    exp = _op(_exp)
    sin = _op(math.sin)
    cos = _op(math.cos)
    tanh = _op(math.tanh)
    float = _op(lambda a: a * 1.0)

    def __pow__(self, e):
        if isinstance(e, int):
            return _op(lambda a: a**e if e >= 0 else _div(1.0, a**-e))(self)
        return _op(lambda a, b: math.pow(a, b))(self, e)

    def where(self, t, f):
        if self.v is POISON:
            return S(POISON)
        return S(val(t) if self.v else val(f))

    def assume(self, other):
        return self


class SV:
    """a vector; `elem` is an example element, known also when it is empty"""

    def __init__(self, items, elem):
        self.items, self.elem = items, elem

    def __getitem__(self, item):
        item = item if isinstance(item, tuple) else (item,)
        if not item:
            return self
        curr, *rest = item
        if isinstance(curr, slice):
            assert curr == slice(None)
            out = array(lambda i: self[i][tuple(rest)] if rest else self[i])
            return out
        s = lift(curr)
        if s.probe is not None:
            s.probe.sizes.append(len(self.items))
        if not self.items:
            r = poison(self.elem)
        elif s.v is POISON:
            r = poison(self.elem)
        else:
            r = self.items[min_(max_(s.v, 0), len(self.items) - 1)]
        return r[tuple(rest)] if rest else r

    def size(self, axis=0):
        v = self
        for _ in range(axis):
            v = v.elem
        return S(len(v.items))

    def concat(self, other):
        return SV(self.items + other.items, self.elem)

    def or_empty(self, item, empty):
        return where(S(len(self.items) > 0), self[item], empty)

    def reduce(self, init, f):
        f(poison(self.elem), poison(self.elem))
        acc = conv(init)
        for x in self.items:
            acc = conv(f(acc, x))
        return acc

    def assume(self, other):
        return self


min_, max_ = min, max


def poison(x):
    if isinstance(x, S):
        return S(POISON)
    if isinstance(x, SV):
        return SV([poison(x.elem) for _ in x.items], poison(x.elem))
    if isinstance(x, dict):
        return {k: poison(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(map(poison, x))
    return type(x)(**{f.name: poison(getattr(x, f.name)) for f in fields(x)})


def conv(x):
    """Python structures as a body may return them"""
    if isinstance(x, (S, SV)):
        return x
    if isinstance(x, (tuple, list)):
        return tuple(map(conv, x))
    if isinstance(x, dict):
        return {k: conv(v) for k, v in x.items()}
    if is_dataclass(x):
        return type(x)(**{f.name: conv(getattr(x, f.name)) for f in fields(x)})
    return S(x)


def array(f, *, size=None):
    if size is not None and not isinstance(size, tuple):
        size = (size,)
    n = len(inspect.signature(f).parameters) if size is None else len(size)
    probes = [Probe() for _ in range(n)]
    example = conv(f(*(S(0, p) for p in probes)))
    if size is None:
        ns = []
        for p in probes:
            if not p.sizes:
                raise Undetermined()
            if len(set(p.sizes)) > 1:
                raise ShadowReject("sizes differ")
            ns.append(p.sizes[0])
    else:
        ns = [max_(val(s), 0) for s in size]

    def go(idx):
        k = len(idx)
        if k == n:
            return conv(f(*(S(i) for i in idx)))
        items = [go(idx + [i]) for i in range(ns[k])]
        return SV(items, items[0] if items else ex(k + 1))

    def ex(k):
        if k == n:
            return example
        if ns[k] == 0:
            return SV([], ex(k + 1))
        return SV([ex(k + 1)] * ns[k], ex(k + 1))

    return go([])


def fold(init, step, count=None):
    p = Probe()
    acc = conv(init)
    step(S(0, p), poison(acc))
    if count is None:
        if not p.sizes:
            raise Undetermined()
        if len(set(p.sizes)) > 1:
            raise ShadowReject("sizes differ")
        count = p.sizes[0]
    for i in range(max_(val(count), 0)):
        acc = conv(step(S(i), acc))
    return acc


def where(c, t, f):
    c, t, f = lift(c), conv(t), conv(f)
    if c.v is POISON:
        return poison(t)
    return t if c.v else f


def concat(a, *rest):
    for b in rest:
        a = a.concat(b)
    return a


class Monoid:
    def __init__(self, identity, concat):
        self.identity, self.concat = identity, concat

    def fold(self, f, count=None):
        return fold(self.identity, lambda i, acc: self.concat(acc, f(i)), count)

    def reduce(self, f, count=None):
        return array(f, size=count).reduce(self.identity, self.concat)


_sum = Monoid(S(0.0), lambda a, b: a + b)
_min = Monoid(S(math.inf), lambda a, b: a.min(b))
_max = Monoid(S(-math.inf), lambda a, b: a.max(b))
_arg = Monoid((S(math.inf), S(0)), lambda a, b: where(a[0] <= b[0], a, b))
fold_sum, fold_min, fold_max = _sum.fold, _min.fold, _max.fold
reduce_sum, reduce_min, reduce_max = _sum.reduce, _min.reduce, _max.reduce


def fold_argmin(f, count=None):
    return _arg.fold(lambda i: (f(i), i), count)[1]


def reduce_argmin(f, count=None):
    return _arg.reduce(lambda i: (f(i), i), count)[1]


def std_min(*xs):
    return functools.reduce(lambda a, b: lift(a).min(b), xs)


def std_max(*xs):
    return functools.reduce(lambda a, b: lift(a).max(b), xs)


def wrap(x):
    if isinstance(x, (S, SV)):
        return x
    if hasattr(x, "shape"):
        return from_nested(x.tolist(), x.shape, x.dtype.type(0).item())
    return S(x)


def from_nested(v, shape, zero):
    if not shape:
        return S(v)
    elem = S(zero)
    for d in reversed(shape[1:]):
        elem = SV([elem] * d, elem)
    items = [from_nested(w, shape[1:], zero) for w in v]
    return SV(items, items[0] if items else elem)


def to_nested(x):
    """(nested lists, dims, python kind or None)"""
    dims = []
    t = x
    while isinstance(t, SV):
        dims.append(len(t.items))
        t = t.elem
    if not isinstance(t, S):
        raise ShadowReject("record")

    def go(y):
        return [go(z) for z in y.items] if isinstance(y, SV) else y.v

    return go(x), dims


def _kind_zero(x):
    while isinstance(x, SV):
        x = x.elem
    return x


def ext(fun, signature):
    """the function sees arrays with just the axes of its operands"""
    import numpy

    out = signature if not isinstance(signature, tuple) else signature[1]
    kind = {float: numpy.float64, int: numpy.int64, bool: numpy.bool_}

    def call(*args):
        arrs, bad = [], False
        for a in map(lift, args):
            v, ds = to_nested(a)
            flat = []

            def go(y):
                if isinstance(y, list):
                    for z in y:
                        go(z)
                else:
                    flat.append(y)

            go(v)
            if any(x is POISON for x in flat):
                bad = True
                good = [x for x in flat if x is not POISON]
                z = type(good[0])(0) if good else 0.0
                flat = [z if x is POISON else x for x in flat]
            if flat:
                arrs.append(numpy.array(flat).reshape(ds))
            else:
                z = _kind_zero(a).v
                arrs.append(numpy.zeros(ds, type(z) if z is not POISON else float))
        if bad and not any(a.ndim for a in arrs):
            return S(POISON)
        r = numpy.asarray(fun(*arrs))
        w = from_nested(r.tolist(), r.shape, r.dtype.type(0).item())
        return poison(w) if bad else w

    return call

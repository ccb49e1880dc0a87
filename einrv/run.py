"""Executing programs on the real code and comparing with the oracle."""
from __future__ import annotations

import contextlib
import io
import math
import os
import traceback
import warnings
import zlib

import numpy

from .lang import dims_of, is_vec, lower, render
from .ref import POISON

KIND = {"i": int, "f": float, "b": bool, "g": float}
NPT = {"i": numpy.int64, "f": numpy.float64, "b": numpy.bool_, "g": numpy.float64}

_ns = None


def namespace():
    """the names a rendered program may use: Ein's public surface"""
    global _ns
    if _ns is not None:
        return _ns
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    import dataclasses

    import ein
    from ein.frontend import std, typed

    @dataclasses.dataclass(frozen=True)
    class P2:
        x: object
        y: object

    @dataclasses.dataclass(frozen=True)
    class P3:
        lo: object
        hi: object
        tag: object

    def ext_f(a, b):
        return a * 2.0 + b

    def ext_i(a, b):
        return a * 2 - b

    _ns = dict(
        wrap=ein.wrap, array=ein.array, fold=ein.fold, where=ein.where, ext=ein.ext,
        concat=std.concat, std_min=std.min, std_max=std.max, Monoid=std.Monoid,
        P2=P2, P3=P3, INF=math.inf, NAN=math.nan,
        EXT={"ext_f": ein.ext(ext_f, ein.scalar_type(float)),
             "ext_i": ein.ext(ext_i, ein.scalar_type(int))},
        **{f"{m}_{k}": getattr(std, f"{m}_{k}") for m in ("fold", "reduce") for k in ("sum", "min", "max", "argmin")},
        **{f"array{k}": getattr(typed, f"array{k}") for k in (1, 2, 3, 4)},
    )
    return _ns


def _ext_ref(f):
    def g(xs, n):
        return POISON if any(x is POISON for x in xs) else f(*xs)

    return g


EXT_REF = {"ext_f": _ext_ref(lambda a, b: a * 2.0 + b), "ext_i": _ext_ref(lambda a, b: a * 2 - b)}


def to_numpy(val, ty, dtype=None):
    ds, s = dims_of(ty)
    return numpy.array(val, dtype=dtype or NPT[s]).reshape(ds)


def relayout(a, how, rng):
    """the same array in another memory layout"""
    if how == "F":
        return numpy.asfortranarray(a) if a.ndim else a
    if how == "ro":
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == "strided" and a.ndim:
        big = numpy.zeros([2 * d for d in a.shape], a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "neg" and a.ndim:
        return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]
    if how == "T" and a.ndim >= 2:
        return numpy.ascontiguousarray(a.T).T
    if how == "buf" and a.ndim and a.size and a.dtype != bool:
        return numpy.frombuffer(a.tobytes(), dtype=a.dtype).reshape(a.shape)
    return a.copy()


def build(src, names):
    """source text -> python function from Ein inputs to an Ein value"""
    return eval(f"lambda {', '.join(names)}: {src}", dict(namespace()))


def ein_type(ty):
    import ein

    ds, s = dims_of(ty)
    return ein.ndarray_type(len(ds), KIND[s])


def execute(fun, arrs, types, backend, mode):
    """evaluate on the real code; returns whatever the backend returned"""
    import ein

    names = list(arrs)
    # the interface has several spellings of the same; which one is used depends on the inputs only
    spelling = zlib.crc32(repr((backend, [(k, str(types[k])) for k in names])).encode()) % 8
    direct = getattr(ein.Vec, backend, None) is not None
    if mode == "wrap":
        v = ein.wrap(fun(*(ein.wrap(arrs[k]) for k in names)))
        if spelling % 2 and direct:
            return getattr(v, backend)()
        return v.eval(backend=backend)
    if mode == "vars" and spelling < 3:
        from ein.phi import phi
        from ein.symbols import Variable

        vs = [Variable() for _ in names]
        syms = [phi.variable(v, ein_type(types[k])) for v, k in zip(vs, names)]
        v = ein.wrap(fun(*((ein.Vec if isinstance(types[k], tuple) else ein.Scalar)(s) for s, k in zip(syms, names))))
        env = {v: arrs[k] for v, k in zip(vs, names)}
        if spelling == 0 and direct:
            return getattr(v, backend)(env=env)
        return v.eval(env=env, backend=backend)
    if mode == "vars":
        vs, expr = ein.with_varargs([ein_type(types[k]) for k in names], fun)
        interp = getattr(ein, "interpret_with_" + backend)
        return interp(expr, {v: arrs[k] for v, k in zip(vs, names)})
    if mode == "function":
        f = ein.function(fun)
        return getattr(f, backend)(*(arrs[k] for k in names))
    raise AssertionError(mode)


def as_np(x):
    if isinstance(x, numpy.ndarray):
        return x
    if type(x).__module__.startswith("torch"):
        return x.detach().cpu().numpy()
    return numpy.asarray(x)


def compare(res, exp, ty, tol=None):
    """None if the observed array is what the oracle expects, else a description"""
    ty = lower(ty)
    ds, s = dims_of(ty)
    if isinstance(res, tuple):
        return f"returned a tuple of {len(res)} arrays"
    a = as_np(res)
    if list(a.shape) != ds:
        return f"shape {tuple(a.shape)}, expected {tuple(ds)}"
    want = {"i": "iu", "f": "f", "b": "b"}[s]
    if a.dtype.kind not in want:
        return f"dtype {a.dtype}, expected kind {s}"
    flat = a.reshape(-1).tolist()
    k = 0

    def go(v, d):
        nonlocal k
        if d:
            for w in v:
                r = go(w, d - 1)
                if r:
                    return r
            return None
        x = flat[k]
        k += 1
        if v is POISON:
            return None
        if isinstance(v, float) and v != v:
            return None if x != x else f"element {k-1}: {x!r}, expected nan"
        if x == v:
            return None
        if tol is not None and isinstance(v, float) and math.isfinite(v) and abs(x - v) <= tol:
            return None
        return f"element {k-1}: {x!r}, expected {v!r}"

    return go(exp, len(ds))


def observe(fun, arrs, types, backend, mode, exp, ty, tol):
    """(status, detail): status in ok / mismatch / error"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = execute(fun, arrs, types, backend, mode)
    except TimeoutError:
        raise
    except RecursionError as e:
        return "error", f"RecursionError: {e}"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "/ein/" in f.filename]
        return "error", f"{type(e).__name__}: {str(e)[:200]} @ {'>'.join(where[-2:])}"
    d = compare(res, exp, ty, tol)
    return ("ok", "") if d is None else ("mismatch", d)


def nd_type(a):
    """the program type of an array"""
    from .lang import nd

    return nd(list(a.shape), {"i": "i", "f": "f", "b": "b"}[numpy.asarray(a).dtype.kind])

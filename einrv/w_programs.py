"""Generated programs, executed on the real code, against the pointwise oracle."""
from __future__ import annotations

import numpy

from . import case, run
from .ctx import Skip
from .profiles import PROFILES

COMPILED = ("numpy", "torch", "jax")
LAYOUTS = ("C", "C", "F", "ro", "strided", "neg", "T", "buf")


def as_inputs(arrs, conv, rng):
    """the arrays in the container a caller may use"""
    if conv == "numpy":
        return arrs
    if conv == "tensor":
        import torch

        out = {}
        for k, a in arrs.items():
            t = torch.tensor(a.copy())
            if a.ndim >= 2 and rng.random() < 0.4:
                t = t.transpose(0, 1).contiguous().transpose(0, 1)
            elif a.ndim and rng.random() < 0.2:
                big = torch.zeros([2 * d for d in a.shape], dtype=t.dtype)
                v = big[tuple(slice(None, None, 2) for _ in a.shape)]
                v.copy_(t)
                t = v
            elif a.ndim == 0 and rng.random() < 0.3:
                t = t.reshape(1).expand(3)[1]
            out[k] = t
        return out
    if conv == "jnp":
        import jax.numpy as jnp

        return {k: jnp.asarray(a, dtype=a.dtype) for k, a in arrs.items()}
    raise AssertionError(conv)


def setup(rng, c, backend, widths=False):
    """(mode, layouts, dtypes, container) of one evaluation"""
    mode = rng.choice(("wrap", "vars", "function") if backend != "naive" else ("wrap", "vars"))
    how = {k: rng.choice(LAYOUTS) for k in c.ins} if rng.random() < 0.6 else {}
    conv = "numpy"
    if backend == "torch" and rng.random() < 0.5:
        conv = "tensor"
    if backend == "jax" and rng.random() < 0.4:
        conv = "jnp"
    dtypes = {}
    if widths:
        dtypes = narrow(rng, c)
    return mode, how, dtypes, conv


def narrow(rng, c):
    """narrower widths in which this program's values are still exact"""
    if c.inexact:
        return {}
    m = c.mag * 4
    fs = [numpy.float64, numpy.float32] if m < 2**22 else [numpy.float64]
    if m < 2**9:
        fs.append(numpy.float16)
    js = [numpy.int64, numpy.int32] if m < 2**28 else [numpy.int64]
    if m < 2**12:
        js.append(numpy.int16)
    if m < 100:
        js.append(numpy.int8)
    out = {}
    for k, t in c.ins.items():
        s = run.dims_of(t)[1]
        if s == "f":
            out[k] = rng.choice(fs)
        elif s == "i":
            out[k] = rng.choice(js)
    return out


def shape_of_run(c, be, mode, how, dtypes, conv):
    return dict(src=c.src, ins={k: str(t) for k, t in c.ins.items()}, vals={k: case.enc(v) for k, v in c.vals.items()},
                backend=be, mode=mode, layouts=how, dtypes={k: numpy.dtype(d).name for k, d in dtypes.items()},
                container=conv, expected=case.enc(c.exp), type=str(c.ty))


def one(c, cs, fun, be, rng, widths=False):
    mode, how, dtypes, conv = setup(rng, cs, be, widths)
    arrs = as_inputs(case.arrays(cs, how, dtypes), conv, rng)
    with c.observing():
        st, d = run.observe(fun, arrs, cs.ins, be, mode, cs.exp, cs.ty, cs.tol)
    c.event("evaluations")
    c.event(f"{be}:{mode}")
    if st != "ok":
        c.violation(f"{be}/{mode}: {st}: {d} | {cs.src[:300]}", shape_of_run(cs, be, mode, how, dtypes, conv))
    return st == "ok"


def programs(c, profile, backends, widths=False):
    cs = case.make(c.seed, PROFILES[profile])
    if cs is None:
        raise Skip("no program")
    fun = run.build(cs.src, list(cs.ins))
    for k, n in cs.stats.items():
        c.event("oracle:" + k, n)
    rng = c.rng("run")
    ran = False
    for be in backends:
        if be == "jax" and cs.dynamic:
            c.event("jax_dynamic")
            continue
        one(c, cs, fun, be, rng, widths)
        ran = True
    if ran and cs.body.size() > 2:
        c.seen(cs.src)
        c.sample(dict(src=cs.src[:400], inputs={k: str(t) for k, t in cs.ins.items()}, expected=str(cs.exp)[:120]))


def made(c, ins, vals, body, inexact=False, dynamic=False):
    """the case of a program made by a workload of its own"""
    from .lang import render
    from .ref import Ref, Reject

    ref = Ref(run.EXT_REF, steps=400000)
    try:
        exp = ref.ev(body, vals)
    except Reject as e:
        raise Skip(str(e))
    cs = case.Case()
    cs.seed, cs.profile, cs.ins, cs.vals, cs.body, cs.src = c.seed, "direct", ins, vals, body, render(body)
    cs.exp, cs.ty, cs.mag, cs.stats = exp, body.ty, ref.mag, ref.stats
    cs.dynamic, cs.inexact = dynamic, inexact
    cs.tol = 1e-7 * ref.mag if inexact else None
    return cs


def direct(c, ins, vals, body, backends, widths=False, inexact=False, dynamic=False, count=True):
    cs = made(c, ins, vals, body, inexact, dynamic)
    exp = cs.exp
    fun = run.build(cs.src, list(ins))
    for k, n in cs.stats.items():
        c.event("oracle:" + k, n)
    rng = c.rng("run")
    for be in backends:
        if be == "jax" and dynamic:
            continue
        one(c, cs, fun, be, rng, widths)
    c.seen(cs.src, str(vals) if len(str(vals)) < 2000 else "")
    c.sample(dict(src=cs.src[:400], inputs={k: str(t) for k, t in ins.items()}, expected=str(exp)[:120]))

"""One observed case: a generated program, its inputs, and the oracle's answer."""
from __future__ import annotations

import json
import random

from . import run
from .gen import Gen
from .lang import dims_of, has_rec, render
from .ref import POISON, Ref, Reject, has_poison


class Case:
    pass


def make(seed, prof, tries=40):
    """deterministic in (seed, prof)"""
    for t in range(tries):
        rng = random.Random(f"{seed}/{t}/{prof.name}")
        g = Gen(rng, prof)
        ins, vals, body = g.program()
        if body.size() > 400:
            continue
        ref = Ref(run.EXT_REF, steps=prof.max_work)
        try:
            exp = ref.ev(body, vals)
        except Reject:
            continue
        src = render(body)
        if src.count("(") > 900:
            continue
        c = Case()
        c.seed, c.profile, c.ins, c.vals, c.body, c.src = seed, prof.name, ins, vals, body, src
        c.exp, c.ty, c.mag, c.stats = exp, body.ty, ref.mag, ref.stats
        c.dynamic = g.dynamic
        c.inexact = g.inexact
        c.tol = 1e-7 * ref.mag if g.inexact else None
        c.rng = rng
        c.tries = t
        return c
    return None


def enc(v):
    if v is POISON:
        return "POISON"
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return {"f": repr(v)}
    return v


def dec(v):
    if v == "POISON":
        return POISON
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        return float(v["f"])
    return v


def totup(t):
    return tuple(totup(x) for x in t) if isinstance(t, list) else t


def replayable(c, arrs_how, backend, mode, detail):
    return dict(kind="program", src=c.src, ins={k: t for k, t in c.ins.items()}, vals={k: enc(v) for k, v in c.vals.items()},
                how=arrs_how, ty=c.ty, exp=enc(c.exp), tol=c.tol, backend=backend, mode=mode, detail=detail,
                seed=c.seed, profile=c.profile)


def arrays(c, how=None, dtypes=None):
    out = {}
    for k, t in c.ins.items():
        a = run.to_numpy(c.vals[k], t, (dtypes or {}).get(k))
        out[k] = run.relayout(a, (how or {}).get(k, "C"), None)
    return out

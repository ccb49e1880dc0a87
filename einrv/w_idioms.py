"""Programs as users write them, on random shapes, against the eager shadow."""
from __future__ import annotations

import math
import types

import numpy

from . import run, shadow
from .ctx import Skip
from .idioms import IDIOMS
from .lang import nd
from .ref import POISON
from .w_programs import LAYOUTS, as_inputs

NAMES = sorted(IDIOMS)
KIND = {"f": "f", "g": "f", "p": "f", "u": "f", "i": "i", "c": "i", "b": "b", "j": "i"}


def real():
    return types.SimpleNamespace(**run.namespace())


def draw(idm, rng, dims=(0, 1, 2, 3, 3, 4, 5, 6), whole=False):
    """(arrays, letters -> sizes)"""
    sizes = {}

    def size(l):
        if l not in sizes:
            sizes[l] = rng.choice(dims)
        return sizes[l]

    out = []
    for kind, *letters in idm.spec:
        shape = [size(l) for l in letters]
        n = math.prod(shape)
        if kind == "f":
            v = [float(rng.randint(-4, 5)) for _ in range(n)]
        elif kind == "g":
            v = [rng.uniform(-1.5, 1.5) for _ in range(n)]
        elif kind == "p":
            v = [rng.uniform(0.5, 2.0) for _ in range(n)]
        elif kind == "u":
            v = [rng.uniform(0.0, 1.0) for _ in range(n)]
        elif kind == "i":
            v = [rng.randint(-3, 6) for _ in range(n)]
        elif kind == "c":
            v = [rng.randint(0, 5) for _ in range(n)]
        elif kind == "b":
            v = [rng.random() < 0.5 for _ in range(n)]
        else:  # j:letter
            m = max(size(kind[2:]), 1)
            v = [rng.randrange(m) for _ in range(n)]
        out.append(numpy.array(v, dtype=run.NPT[KIND[kind[0]]]).reshape(shape))
    return out, sizes


def expected(fun, kind, arrs):
    """(nested value, type of lang, largest magnitude)"""
    try:
        r = fun(shadow, *(shadow.wrap(a) for a in arrs))
        v, ds = shadow.to_nested(shadow.conv(r))
    except (shadow.ShadowReject, OverflowError) as e:
        raise Skip("oracle: " + str(e))
    top = 1.0

    def mags(x):
        nonlocal top
        if isinstance(x, list):
            for y in x:
                mags(y)
        elif x is not POISON and x == x and abs(x) != math.inf:
            top = max(top, abs(x))

    mags(v)
    return v, nd(ds, kind), top


DT = {"f": "f", "i": "i", "u": "i", "b": "b"}


def shadowed(c, label, fun, kind, arrs, backends, rng, exact=True, jax=True, layouts=True, info=None, modes=None, tol=None):
    """run fun(E, *arrays) on the real code and on the shadow, and compare"""
    exp, ty, top = expected(fun, kind, arrs)
    E = real()
    names = [f"p{i}" for i in range(len(arrs))]
    tys = {n: nd(list(a.shape), DT[a.dtype.kind]) for n, a in zip(names, arrs)}
    if tol is None:
        tol = None if exact and top < 2**40 else 1e-8 * top
    good = True
    for be in backends:
        if be == "jax" and not jax:
            continue
        mode = rng.choice(modes or ("wrap", "vars", "function"))
        if mode == "function" and be == "naive":
            mode = "vars"
        how = [rng.choice(LAYOUTS) if layouts else "C" for _ in arrs]
        conv = rng.choice({"torch": ("numpy", "tensor"), "jax": ("numpy", "jnp")}.get(be, ("numpy",)))
        ins = as_inputs({n: run.relayout(a, h, None) for n, a, h in zip(names, arrs, how)}, conv, rng)
        with c.observing():
            st, d = run.observe(lambda *xs: fun(E, *xs), ins, tys, be, mode, exp, ty, tol)
        c.event("evaluations")
        c.event(f"{be}:{mode}")
        if st != "ok":
            good = False
            c.violation(f"{be}/{mode}: {label}: {st}: {d}", dict(
                label=label, backend=be, mode=mode, layouts=how, container=conv, **(info or {}),
                inputs=[a.tolist() for a in arrs], expected=str(exp)[:2000]))
    return good


def idioms(c, backends, dims=None, layouts=True):
    idm = IDIOMS[NAMES[c.index % len(NAMES)]]
    rng = c.rng("draw")
    arrs, sizes = draw(idm, rng, dims or (0, 1, 2, 3, 3, 4, 5, 6))
    shadowed(c, f"idiom {idm.name} {sizes}", idm.fun, idm.kind, arrs, backends, rng, exact=idm.exact, jax=idm.jax,
             layouts=layouts)
    c.seen(idm.name, sorted(sizes.items()))
    c.sample(dict(idiom=idm.name, sizes=sizes))

"""Gradients on Torch and JAX against differences of the pointwise meaning (C17)."""
from __future__ import annotations

import math

import numpy

from . import case, run, shadow
from .ctx import Skip
from .idioms import IDIOMS
from .lang import dims_of
from .profiles import PROFILES
from .ref import POISON, Ref, Reject
from .w_idioms import NAMES, draw, expected, real

SMOOTH = [n for n in NAMES if IDIOMS[n].kind == "f" and any(s[0] in "fgpu" for s in IDIOMS[n].spec)]


def weighted(v, ws):
    """sum of w * element, None if it is not finite"""
    out = 0.0
    k = 0

    def go(x):
        nonlocal out, k
        if isinstance(x, list):
            for y in x:
                go(y)
            return
        w = ws[k % len(ws)]
        k += 1
        if x is POISON:
            raise Skip("undefined elements")
        out += w * x

    go(v)
    return out


def differences(r, value, arrs, floats, coords=5):
    """[(input, flat position, derivative)] where differences agree with each other"""
    sites = [(q, p) for q in floats for p in range(arrs[q].size)]
    r.shuffle(sites)
    out = []
    base = value(arrs)
    if base is None or not math.isfinite(base):
        return []
    for q, p in sites[:coords]:
        def at(h):
            b = list(arrs)
            flat = numpy.array(arrs[q]).reshape(-1)
            flat[p] += h
            b[q] = flat.reshape(arrs[q].shape)
            return value(b)

        def slope(h):
            lo, hi = at(-h), at(h)
            if lo is None or hi is None:
                return None, None, None
            return (hi - lo) / (2 * h), (hi - base) / h, (base - lo) / h

        try:
            c1, f1, b1 = slope(1e-4)
            c2, f2, b2 = slope(2e-5)
        except Exception:
            continue
        if c1 is None or c2 is None:
            continue
        size = max(1.0, abs(base), abs(c2))
        # one-sided slopes agree (no kink), and finer steps do not change it (no pole)
        if not all(map(math.isfinite, (c1, c2, f2, b2))) or abs(c1 - c2) > 1e-5 * size or abs(f2 - b2) > 2e-2 * size or abs(f1 - b1) > 1e-1 * size:
            continue
        if abs(f1 - b1) > 20 * abs(f2 - b2) + 1e-6 * size or abs(f2 - b2) > 0.5 * abs(f1 - b1) + 1e-6 * size:
            continue  # a smooth function's one-sided difference shrinks in proportion
        out.append((q, p, c2, 3e-5 * size))
    return out


def torch_grad(fun, arrs, floats, ws, mode, r):
    import torch

    import ein

    ts = []
    for q, a in enumerate(arrs):
        t = torch.tensor(a)
        if q in floats:
            t.requires_grad_()
        ts.append(t)
    if mode == "wrap":
        res = ein.wrap(fun(*(ein.wrap(t) for t in ts))).eval(backend="torch")
    else:
        res = run.execute(fun, {f"p{q}": t for q, t in enumerate(ts)}, {f"p{q}": run.nd_type(a) for q, a in enumerate(arrs)}, "torch", mode)
    w = torch.tensor([ws[k % len(ws)] for k in range(res.numel())], dtype=res.dtype).reshape(res.shape)
    loss = (res * w).sum()
    if loss.requires_grad:
        loss.backward()
    return run.as_np(res), {q: (ts[q].grad.numpy() if ts[q].grad is not None else numpy.zeros(arrs[q].shape)) for q in floats}


def jax_grad(fun, arrs, floats, ws, mode, r, forward=False):
    import jax
    import jax.numpy as jnp

    import ein

    fs = list(floats)
    if mode == "function":
        f = ein.function(fun)
        call = f.jax
    else:
        vs, expr = ein.with_varargs([run.ein_type(run.nd_type(a)) for a in arrs], fun)

        def call(*xs):
            return ein.interpret_with_jax(expr, dict(zip(vs, xs)))

    def loss(*xs):
        full = list(map(jnp.asarray, arrs))
        for q, x in zip(fs, xs):
            full[q] = x
        res = call(*full)
        w = jnp.asarray([ws[k % len(ws)] for k in range(res.size)]).reshape(res.shape)
        return (res * w).sum(), res

    xs = [jnp.asarray(arrs[q]) for q in fs]
    if forward:
        gs, res = jax.jacfwd(loss, argnums=tuple(range(len(fs))), has_aux=True)(*xs)
    else:
        (_, res), gs = jax.value_and_grad(loss, argnums=tuple(range(len(fs))), has_aux=True)(*xs)
    return numpy.asarray(res), {q: numpy.asarray(g) for q, g in zip(fs, gs)}


def judge(c, label, fun, arrs, floats, value, exp, ty, tol, backend, r, info):
    arrs = [numpy.asarray(a) for a in arrs]
    ws = [round(r.uniform(0.5, 1.5), 3) * r.choice([1, -1]) for _ in range(7)]
    wrapped = lambda b: weighted(value(b), ws)
    try:
        ds = differences(r, wrapped, arrs, floats)
    except (shadow.ShadowReject, shadow.Undetermined, Reject, OverflowError, ZeroDivisionError, ValueError):
        raise Skip("no differences")
    if not ds:
        raise Skip("not differentiable here")
    mode = r.choice(("wrap", "vars", "function") if backend == "torch" else ("vars", "function"))
    info = dict(info, backend=backend, mode=mode, inputs=[a.tolist() for a in arrs])
    with c.observing():
        try:
            if backend == "torch":
                res, gs = torch_grad(fun, arrs, floats, ws, mode, r)
            else:
                forward = r.random() < 0.3
                try:
                    res, gs = jax_grad(fun, arrs, floats, ws, mode, r, forward)
                except ValueError as e:
                    if "Reverse-mode" not in str(e):
                        raise
                    # JAX itself has no reverse mode for loops with runtime counts
                    forward = True
                    res, gs = jax_grad(fun, arrs, floats, ws, mode, r, True)
                c.event("forward mode" if forward else "reverse mode")
        except Exception as e:
            c.violation(f"{backend}/{mode}: gradient of {label}: {type(e).__name__}: {str(e)[:300]}", info)
            return False
    c.event("evaluations")
    d = run.compare(res, exp, ty, tol)
    if d is not None:
        c.violation(f"{backend}/{mode}: value of {label} under differentiation: {d}", info)
        return False
    for q, p, want, eps in ds:
        if list(gs[q].shape) != list(arrs[q].shape):
            c.violation(f"{backend}/{mode}: gradient of {label} has shape {gs[q].shape}", info)
            return False
        g = float(gs[q].reshape(-1)[p])
        if g != g and any(k in info.get("src", "") for k in ("INF", "_min", "_max", "argmin")):
            # infinities the oracle did not need may be met (identities of minimum and maximum), and 0 * inf is no derivative
            c.event("derivatives next to infinities")
            continue
        c.event("derivatives")
        if want != 0:
            c.event("derivatives that are not zero")
        if not abs(g - want) <= eps:
            c.violation(f"{backend}/{mode}: derivative of {label} by input {q} at {p}: {g!r}, differences give {want!r}", info)
            return False
    return True


def idioms(c, backend):
    r = c.rng("grad")
    idm = IDIOMS[SMOOTH[c.index % len(SMOOTH)]]
    if backend == "jax" and not idm.jax:
        raise Skip("not for JAX")
    arrs, sizes = draw(idm, r, (1, 2, 2, 3, 3, 4))
    floats = [q for q, s in enumerate(idm.spec) if s[0] in "fgpu"]
    for q in floats:
        if idm.spec[q][0] == "f":
            arrs[q] = arrs[q] * 0.37 + numpy.array([r.uniform(-0.2, 0.2) for _ in range(arrs[q].size)]).reshape(arrs[q].shape)

    def value(b):
        return shadow.to_nested(shadow.conv(idm.fun(shadow, *(shadow.wrap(a) for a in b))))[0]

    exp, ty, top = expected(idm.fun, "f", arrs)
    E = real()
    label = f"idiom {idm.name} {sizes}"
    if judge(c, label, lambda *xs: idm.fun(E, *xs), arrs, floats, value, exp, ty, 1e-8 * top, backend, r, dict(idiom=idm.name)):
        c.seen(idm.name, sorted(sizes.items()), backend)
        c.sample(dict(label=label))


def programs(c, backend, profile):
    r = c.rng("grad")
    for q in range(30):
        cs = case.make(f"{c.seed}/{q}", PROFILES[profile])
        if cs is None or dims_of(cs.ty)[1] not in ("f", "g") or (backend == "jax" and cs.dynamic):
            continue
        floats = [k for k, t in cs.ins.items() if dims_of(t)[1] in ("f", "g")]
        if floats and cs.body.size() <= 120:
            break
    else:
        raise Skip("no program")
    names = list(cs.ins)
    arrs = []
    for k, t in cs.ins.items():
        a = run.to_numpy(cs.vals[k], t)
        if k in floats:
            a = a * 0.37 + numpy.array([r.uniform(-0.15, 0.15) for _ in range(a.size)]).reshape(a.shape)
        arrs.append(a)

    def value(b):
        ref = Ref(run.EXT_REF, steps=40000)
        return ref.ev(cs.body, {k: a.tolist() for k, a in zip(names, b)})

    try:
        exp = value(arrs)
    except (Reject, OverflowError, ValueError, ZeroDivisionError):
        raise Skip("oracle")
    top = 1.0

    def mags(x):
        nonlocal top
        if isinstance(x, list):
            for y in x:
                mags(y)
        elif x is not POISON:
            if not math.isfinite(x):
                raise Skip("not finite")
            top = max(top, abs(x))

    mags(exp)
    fun = run.build(cs.src, names)
    label = cs.src[:300]
    if judge(c, label, fun, arrs, [names.index(k) for k in floats], value, exp, cs.ty, 1e-8 * top, backend, r, dict(src=cs.src)):
        c.seen(cs.src, backend)
        c.sample(dict(src=cs.src[:300]))

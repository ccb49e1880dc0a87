"""Printing and drawing programs (C20)."""
from __future__ import annotations

import contextlib
import html
import io
import math
import re

import numpy

from . import case, run
from .ctx import Skip
from .idioms import IDIOMS
from .lang import dims_of
from .profiles import PROFILES
from .ref import Ref, Reject
from .w_idioms import NAMES, draw, expected, real


def printers():
    """callables from a program to a text"""
    from ein import debug

    return [debug.pretty_phi, debug.pretty_yarr_of_phi]


def drawers():
    from ein import debug
    from ein.codegen import phi_to_yarr

    return [lambda e: debug.graph(e).to_string(), lambda e: debug.graph(phi_to_yarr.transform(e)).to_string()]


def squash(s):
    return re.sub(r"\s+", "", s)


def quiet(c, thunk, info, what):
    """the value of the thunk, watching standard output"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), c.observing():
        try:
            v = thunk()
        except Exception as e:
            c.violation(f"{what} failed: {type(e).__name__}: {str(e)[:300]}", info)
            return None
    if out.getvalue():
        c.violation(f"{what} wrote to standard output: {out.getvalue()[:200]!r}", info)
    return v


def literals(v):
    """texts which show this constant"""
    a = numpy.asarray(v)
    return squash(str(a.tolist()))


def shows(text, v):
    """whether the numbers of the text include this scalar"""
    for t in re.findall(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)", text):
        try:
            if abs(float(t)) == abs(v):
                return True
        except ValueError:
            pass
    return False


def same(a, b):
    return repr(a) == repr(b)


def checked(c, r, expr, names, consts, info, evaluate, draw_too=True):
    """print in all ways; names / consts are those the value depends on"""
    import ein

    before = evaluate()
    ps = printers()
    r.shuffle(ps)
    for p in ps:
        what = p.__name__
        kw = {}
        if r.random() < 0.7:
            kw = dict(width=r.choice([1, 8, 20, 40, 80, 200, 10000]), indent=r.choice([0, 1, 2, 4]))
        s = quiet(c, lambda: p(expr, **kw), dict(info, options=kw), what)
        if s is None:
            return False
        c.event("texts")
        c.event("evaluations")
        if not isinstance(s, str) or not s.strip():
            c.violation(f"{what} gave {s!r}", info)
            return False
        t = squash(s)
        for n in names:
            if n not in t:
                c.violation(f"{what} does not show the variable {n}:\n{s[:1500]}", info)
                return False
            c.event("variables found")
        for v in consts:
            ok = shows(s, v) if isinstance(v, (int, float)) else literals(v) in t
            if not ok:
                c.violation(f"{what} does not show the constant {v!r}:\n{s[:1500]}", info)
                return False
            c.event("constants found")
        # what is bound to a name is computed with under this name
        for n in set(re.findall(r"\blet\s+([^\s:]+)\s*:", s)):
            if len(re.findall(re.escape(n) + r"(?!\w)", s)) < 2:
                c.violation(f"{what} does not show where {n} is used:\n{s[:1500]}", info)
                return False
            c.event("bound names found")
    if draw_too and r.random() < 0.5:
        for d in drawers():
            s = quiet(c, lambda: d(expr), info, "graph")
            if s is None:
                return False
            for n in names:
                if html.escape(html.escape(n)) not in s and html.escape(n) not in s and n not in s:
                    c.violation(f"graph does not show the variable {n}:\n{s[:1500]}", info)
                    return False
            c.event("graphs")
    after = evaluate()
    if before != after:
        c.violation(f"printing changed the value: {before} before, {after} after", info)
        return False
    return True


def depends(cs):
    """the inputs on which the value depends, by the oracle"""
    import random

    out = []
    for k, t in cs.ins.items():
        ds, s = dims_of(t)
        for q in range(3):
            rr = random.Random(f"{cs.seed}/{k}/{q}")

            def fresh(d):
                if d:
                    return [fresh(d[1:]) for _ in range(d[0])]
                return rr.random() < 0.5 if s == "b" else rr.randint(0, 3) if s == "i" else float(rr.randint(-5, 5))

            ref = Ref(run.EXT_REF, steps=50000)
            try:
                v = ref.ev(cs.body, dict(cs.vals, **{k: fresh(ds)}))
            except Reject:
                continue
            except Exception:
                continue
            if not same(v, cs.exp):
                out.append(k)
                break
    return out


def programs(c, profile):
    import ein

    cs = case.make(c.seed, PROFILES[profile])
    if cs is None:
        raise Skip("no program")
    r = c.rng("print")
    info = dict(src=cs.src)
    dep = depends(cs)
    fun = run.build(cs.src, list(cs.ins))
    arrs = case.arrays(cs)
    mode = r.choice(["vars", "vars", "consts"])
    be = r.choice(["numpy", "torch", "naive"])

    def verdict(thunk):
        try:
            return run.compare(thunk(), cs.exp, cs.ty, cs.tol) or "as expected"
        except Exception as e:
            return f"{type(e).__name__}: {str(e)[:200]}"

    if mode == "vars":
        vs, expr = ein.with_varargs([run.ein_type(t) for t in cs.ins.values()], fun)
        names = [squash(str(v)) for v, k in zip(vs, cs.ins) if k in dep]
        env = dict(zip(vs, arrs.values()))
        ok = checked(c, r, expr, names, [], info, lambda: verdict(lambda: getattr(ein, "interpret_with_" + be)(expr, env)))
    else:
        # the same program over constants
        kind = r.choice(["numpy", "tensor", "jnp"])
        vals = dict(arrs)
        if kind == "tensor":
            import torch

            vals, be = {k: torch.tensor(a) for k, a in arrs.items()}, "torch"
        elif kind == "jnp":
            import jax.numpy as jnp

            vals = {k: jnp.asarray(a) for k, a in arrs.items()}
            be = "numpy"
        try:
            v = ein.wrap(fun(*(ein.wrap(a) for a in vals.values())))
        except Exception:
            raise Skip("not built")
        consts = [a for k, a in arrs.items() if k in dep and a.size]
        expr = v.expr
        ok = checked(c, r, expr, [], consts, dict(info, container=kind),
                     (lambda: "") if kind == "jnp" else (lambda: verdict(lambda: v.eval(backend=be))))
        c.event(f"constants held in {kind}")
    if ok:
        c.seen(cs.src, mode)
        c.sample(dict(src=cs.src[:300], mode=mode, dep=dep))


def idioms(c):
    """programs a user would write; staged functions"""
    import ein
    from .run import KIND
    from .w_idioms import DT

    r = c.rng("print")
    idm = IDIOMS[NAMES[c.index % len(NAMES)]]
    arrs, sizes = draw(idm, r)
    exp, ty, top = expected(idm.fun, idm.kind, arrs)
    E = real()
    try:
        with c.observing():
            vs, expr = ein.function(lambda *xs: idm.fun(E, *xs)).phi(
                *(ein.ndarray_type(a.ndim, {"i": int, "f": float, "b": bool}[a.dtype.kind]) for a in arrs))
    except Exception as e:
        c.violation(f"staging {idm.name} failed: {e}", dict(idiom=idm.name))
        return
    env = dict(zip(vs, arrs))

    def ev():
        try:
            return run.compare(ein.interpret_with_numpy(expr, env), exp, ty, None if idm.exact and top < 2**40 else 1e-8 * top) or "as expected"
        except Exception as e:
            return f"{type(e).__name__}: {e}"

    if checked(c, r, expr, [], [], dict(idiom=idm.name), ev):
        c.seen(idm.name, [a.shape for a in arrs])
        c.sample(dict(idiom=idm.name))


# ---------------------------------------------------------------- constants and nesting by construction
SPECIAL = [0.0, -0.0, 1e-300, 1e300, math.inf, -math.inf, 0.1, 123456789.125, 3.0, -7.5, 1 / 3]


def _nest(kind, d, r):
    """a program of nesting d, with the scalars which it shows"""
    import ein
    from ein import array, fold, where, wrap

    vals = [float(1000 + 17 * q) + 0.25 for q in range(d)]

    def f(x):
        e = x[0]
        for q, k in enumerate(vals):
            if kind == "calls":
                e = (e + k).sin()
            elif kind == "mixed":
                e = [lambda e: (e * k).sin(), lambda e: k - e, lambda e: where(e > k, e, wrap(k)), lambda e: -(e + k)][q % 4](e)
            elif kind == "folds":
                e = fold(e, lambda i, a: a * k + i.float(), 2)
            elif kind == "arrays":
                y = array(lambda i: e * k + x[i], size=x.size())
                e = y[1]
            elif kind == "wheres":
                e = where(e > 0.0, (e + k).exp(), e - k)
            elif kind == "records":
                a, b = ein.wrap((e, k)).to_layout() if False else (e, wrap(k))
                e = fold((a, b), lambda i, p: (p[1] + i.float(), p[0]), 2)[0] + k
            elif kind == "lets":
                e = e * e + k
            elif kind == "reductions":
                e = array(lambda i: x[i] * e).reduce(wrap(0.0), lambda a, b: a + b) + k
        return e

    return f, vals


NESTS = ("calls", "mixed", "folds", "arrays", "wheres", "records", "lets", "reductions")
DEPTH = dict(calls=30, mixed=36, folds=7, arrays=14, wheres=16, records=6, lets=30, reductions=8)


def nesting(c):
    import ein

    r = c.rng("print")
    kind = NESTS[c.index % len(NESTS)]
    # the last cases of each kind are the deepest
    d = max(1, round(DEPTH[kind] * min(1.0, (1 + c.index // len(NESTS)) / 6)))
    f, vals = _nest(kind, d, r)
    (v,), expr = ein.with_varargs([ein.ndarray_type(1, float)], f)
    env = {v: numpy.array([0.5, -0.25, 0.75])}

    def ev():
        try:
            return repr(numpy.asarray(ein.interpret_with_numpy(expr, env)).tolist())
        except RecursionError:
            return "too deep"

    if ev() == "too deep":
        raise Skip("deeper than the interpreter's stack")
    if checked(c, r, expr, [squash(str(v))], vals, dict(nest=kind, depth=d), ev):
        c.seen(kind, d, c.index)
        c.event("nesting", d)
        c.sample(dict(nest=kind, depth=d))


def constants(c):
    """constants of every kind, size and container"""
    import ein

    r = c.rng("print")
    rank = r.choice([0, 0, 1, 1, 2, 3])
    shape = [r.choice([1, 2, 3]) for _ in range(rank)]
    if rank == 1 and r.random() < 0.2:
        shape = [r.choice([200, 1500])]
    k = r.choice("fffib")
    n = int(numpy.prod(shape))
    if k == "f":
        a = numpy.array([r.choice(SPECIAL + [math.nan]) if r.random() < 0.5 else r.uniform(-1e6, 1e6) for _ in range(n)]).reshape(shape)
        if r.random() < 0.2:
            a = a.astype(numpy.float32)
    elif k == "i":
        a = numpy.array([r.choice([0, -1, 2**40, -(2**62), r.randint(-9, 9)]) for _ in range(n)], dtype=numpy.int64).reshape(shape)
    else:
        a = numpy.array([r.random() < 0.5 for _ in range(n)], dtype=bool).reshape(shape)
    kind = r.choice(["numpy", "tensor", "jnp"])
    x = a
    if kind == "tensor":
        import torch

        x = torch.tensor(a)
        if a.dtype.kind == "f" and r.random() < 0.5:
            x.requires_grad_()
    elif kind == "jnp":
        import jax.numpy as jnp

        x = jnp.asarray(a)
    with c.observing():
        w = ein.wrap(x)
        e = w
        if rank:
            ranks = range(rank)
            idx = [f"i{q}" for q in ranks]
            e = eval(f"array(lambda {', '.join(idx)}: w[{', '.join(idx)}])", dict(array=ein.array, w=w))
            if r.random() < 0.3:
                e = w
    info = dict(shape=shape, dtype=str(a.dtype), container=kind)
    want = numpy.asarray(x.detach() if kind == "tensor" else x)
    ok = checked(c, r, ein.wrap(e).expr, [], [want], info, lambda: "", draw_too=kind != "tensor")
    if ok:
        c.seen(shape, str(a.dtype), kind, a.tobytes()[:64])
        c.sample(info)


def saved(c, profile="broad"):
    """graphs written to files, in the place and format asked for"""
    import functools
    import os
    import shutil
    import tempfile

    import ein
    from ein import debug
    from ein.codegen import phi_to_yarr

    if shutil.which("dot") is None:
        raise Skip("no graphviz")
    cs = case.make(c.seed, PROFILES[profile])
    if cs is None or cs.body.size() > 60:
        raise Skip("no program")
    r = c.rng("print")
    fun = run.build(cs.src, list(cs.ins))
    vs, expr = ein.with_varargs([run.ein_type(t) for t in cs.ins.values()], fun)
    if r.random() < 0.4:
        f = functools.partial(lambda a, b: a * b, 2.0) if r.random() < 0.5 else (lambda a: a * 3.0)
        g = ein.ext(f, ein.scalar_type(float))
        v = ein.array(lambda i: g(i.float() + 1.5), size=3)
        expr = v.expr
    d = tempfile.mkdtemp(prefix="einrv-")
    try:
        for prog in (expr, phi_to_yarr.transform(expr)):
            kind, fmt, want = r.choice([("svg", None, "<svg"), ("dot", None, "digraph"), (None, "svg", "<svg"), (None, None, None)])
            path = os.path.join(d, f"g{r.randint(0, 10**9)}")
            s = quiet(c, lambda: (debug.save_graph(debug.graph(prog), path + (f".{kind}" if kind else ""), *([fmt] if fmt else [])), True)[1],
                      dict(src=cs.src, kind=kind, fmt=fmt), "save_graph")
            if s is None:
                return
            full = f"{path}.{kind or fmt or 'png'}"
            if not os.path.exists(full) or not os.path.getsize(full):
                c.violation(f"save_graph left {os.listdir(d)}, not {os.path.basename(full)}", dict(src=cs.src))
                return
            data = open(full, "rb").read()
            if want is not None and want.encode() not in data or want is None and not data.startswith(b"\x89PNG"):
                c.violation(f"{os.path.basename(full)} is not of its format", dict(src=cs.src))
                return
            c.event("files")
            c.event("evaluations")
            c.seen(cs.src, kind, fmt)
    finally:
        shutil.rmtree(d, ignore_errors=True)

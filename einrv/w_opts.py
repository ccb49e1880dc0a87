"""Compiler options and program transformations do not change what a program computes (C10)."""
from __future__ import annotations

import contextlib
import importlib
import inspect
import io
import warnings

import numpy

from . import case, run
from .ctx import Skip
from .lang import Node, render
from .profiles import PROFILES
from .w_programs import shape_of_run


def internal(path):
    """an internal of Ein, if there is still one of this name"""
    mod, _, name = path.partition(":")
    try:
        return getattr(importlib.import_module(mod), name)
    except (ImportError, AttributeError):
        return None


def options():
    f = internal("ein.codegen.phi_to_yarr:transform")
    if f is None:
        return None, []
    return f, [p.name for p in inspect.signature(f).parameters.values() if p.kind == p.KEYWORD_ONLY and isinstance(p.default, bool)]


def thunks(n: Node, names=frozenset()):
    """every use of a let-bound name builds its own copy"""
    if n.op == "var":
        return Node("var", n.ty, (), name=n.a["name"] + "()") if n.a["name"] in names else n
    if n.op == "let":
        bind = render(thunks(n.args[0], names))
        body = thunks(n.args[1], names | {n.a["name"]})
        return Node("let", n.ty, (Node("var", n.args[0].ty, (), name=f"(lambda: {bind})"), body), name=n.a["name"])
    return Node(n.op, n.ty, tuple(thunks(x, names) for x in n.args), **n.a)


def shadowed_names(n, bound=frozenset()):
    """whether a let-bound name is bound again below"""
    if n.op == "let":
        if n.a["name"] in bound:
            return True
        return shadowed_names(n.args[0], bound) or shadowed_names(n.args[1], bound | {n.a["name"]})
    return any(shadowed_names(x, bound) for x in n.args)


def judge(c, cs, what, thunk, info):
    """run thunk (giving an array) and compare with the oracle"""
    try:
        with c.observing(), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = thunk()
        d = run.compare(res, cs.exp, cs.ty, cs.tol)
    except TimeoutError:
        raise
    except Exception as e:
        d = f"{type(e).__name__}: {str(e)[:200]}"
    c.event("evaluations")
    c.event(what.split(" ")[0])
    if d is not None:
        c.violation(f"{what}: {d} | {cs.src[:300]}", {**shape_of_run(cs, info.get("backend", ""), what, {}, {}, "numpy"), **info})
    return d is None


def source(c, profile):
    if profile == "contractions":
        from .w_folds import contraction
        from .w_programs import made

        return made(c, *contraction(c.rng("contractions")))
    return case.make(c.seed, PROFILES[profile])


def staged(c, profile):
    """random combinations of the options of the compiler"""
    import ein

    transform, names = options()
    stage_np = internal("ein.backend.numpy_backend:stage_in_array")
    stage_to = internal("ein.backend.torch_backend:stage_in_array")
    if transform is None or stage_np is None or not names:
        raise Skip("no such options")
    cs = source(c, profile)
    if cs is None:
        raise Skip("no program")
    r = c.rng("opts")
    fun = run.build(cs.src, list(cs.ins))
    vs, expr = ein.with_varargs([run.ein_type(t) for t in cs.ins.values()], fun)
    arrs = case.arrays(cs, {}, {})
    combos = [{k: r.random() < 0.5 for k in names} for _ in range(2)]
    off = dict.fromkeys(names, False)
    on = dict.fromkeys(names, True)
    one = r.choice(names)
    combos += [{**off, one: True}, {**on, one: False}]
    if c.index % 3 == 0:
        combos.append(off)
    for opts in combos:
        torch_too = stage_to is not None and r.random() < 0.3

        def go(stage=stage_np, to=lambda a: a):
            p = transform(expr, **opts)
            return stage(p)({v: to(a) for v, a in zip(vs, arrs.values())})

        if not judge(c, cs, "options " + "".join("01"[v] for v in opts.values()), go, dict(options=opts, backend="numpy")):
            return
        if torch_too:
            import torch

            judge(c, cs, "torch_options", lambda: go(stage_to, lambda a: torch.from_numpy(a.copy())), dict(options=opts, backend="torch"))
    c.seen(cs.src, str(combos))
    c.sample(dict(src=cs.src[:400], options=combos[0]))


TRANSFORMS = {
    "outline": "ein.midend.lining:outline",
    "inline": "ein.midend.lining:inline",
    "unique": "ein.midend.substitution:with_unique_binders",
    "soa": "ein.midend.structs:struct_of_arrays_transform",
}
ARRAY_TRANSFORMS = {
    "outline": "ein.midend.lining:outline",
    "inline": "ein.midend.lining:inline",
    "cancel_shapes": "ein.codegen.phi_to_yarr:cancel_shape_ops",
    "cancel_tuples": "ein.codegen.phi_to_yarr:cancel_tuple_ops",
    "inplace": "ein.codegen.phi_to_yarr:apply_inplace_on_temporaries",
}


def transformed(c, profile):
    """chains of transformations of the program, before and after compilation"""
    import ein

    r = c.rng("chain")
    cs = source(c, profile)
    if cs is None:
        raise Skip("no program")
    phis = {k: internal(p) for k, p in TRANSFORMS.items() if internal(p)}
    if "unique" in phis:  # lining takes programs in which no two terms bind the same symbol
        for k in {"outline", "inline"} & set(phis):
            phis[k] = (lambda f, unique: lambda p: f(unique(p)))(phis[k], phis["unique"])
    yarrs = {k: internal(p) for k, p in ARRAY_TRANSFORMS.items() if internal(p) and k != "inplace"}
    if not phis:
        raise Skip("no such transformations")
    fun = run.build(cs.src, list(cs.ins))
    vs, expr = ein.with_varargs([run.ein_type(t) for t in cs.ins.values()], fun)
    arrs = case.arrays(cs, {}, {})
    env = lambda: {v: a for v, a in zip(vs, arrs.values())}
    chain = [r.choice(sorted(phis)) for _ in range(r.choice([1, 1, 2, 2, 3]))]
    info = dict(chain=chain)
    prog = expr
    try:
        with c.observing():
            for k in chain:
                new = phis[k](prog)
                if new.type != prog.type:
                    c.violation(f"{k} changed the type from {prog.type} to {new.type} | {cs.src[:300]}", dict(src=cs.src, **info))
                    return
                # unused bindings may be dropped, and components of records that are not used
                plain = k != "soa" and prog is expr
                if new.free_symbols != prog.free_symbols and (plain or not new.free_symbols <= prog.free_symbols):
                    c.violation(f"{k} changed the free variables | {cs.src[:300]}", dict(src=cs.src, **info))
                    return
                prog = new
    except TimeoutError:
        raise
    except Exception as e:
        c.violation(f"{'>'.join(chain)}: {type(e).__name__}: {str(e)[:200]} | {cs.src[:300]}", dict(src=cs.src, **info))
        return
    backends = ["numpy", r.choice(["naive", "torch"])]
    if c.index % 12 == 0 and not cs.dynamic:
        backends.append("jax")
    for be in backends:
        judge(c, cs, f"phi:{chain[-1]} {'>'.join(chain)} on {be}", lambda: getattr(ein, "interpret_with_" + be)(prog, env()), {**info, "backend": be})
    transform = internal("ein.codegen.phi_to_yarr:transform")
    stage = internal("ein.backend.numpy_backend:stage_in_array")
    if transform is not None and stage is not None and yarrs:
        ychain = [r.choice(sorted(yarrs)) for _ in range(r.choice([1, 2, 3]))]

        def go():
            p = transform(expr)
            for k in ychain:
                q = yarrs[k](p)
                assert q.type == p.type, f"{k} changed the type from {p.type} to {q.type}"
                assert q.free_symbols <= p.free_symbols, f"{k} changed the free variables"
                p = q
            return stage(p)(env())

        judge(c, cs, f"yarr:{ychain[-1]} {'>'.join(ychain)}", go, dict(chain=ychain, backend="numpy"))
    c.seen(cs.src, str(chain))
    c.sample(dict(src=cs.src[:400], chain=chain))


def unshared(c, profile):
    """the same computation with every shared Python value built afresh at each of its uses"""
    cs = source(c, profile)
    if cs is None or cs.src.count("lambda") < 1:
        raise Skip("no program")
    if shadowed_names(cs.body):
        raise Skip("names bound twice")
    src = render(thunks(cs.body))
    if src == cs.src:
        raise Skip("nothing shared")
    import ein

    r = c.rng("be")
    for s, tag in ((src, "unshared"), (cs.src, "shared")):
        fun = run.build(s, list(cs.ins))
        for be in ["numpy", r.choice(["torch", "naive"])] + (["jax"] if c.index % 14 == 0 and not cs.dynamic else []):
            arrs = case.arrays(cs, {}, {})
            mode = r.choice(("wrap", "vars"))
            judge(c, cs, f"{tag} {be}", lambda: run.execute(fun, arrs, cs.ins, be, mode), dict(source=s[:3000], backend=be))
    c.seen(src)
    c.sample(dict(src=src[:400]))

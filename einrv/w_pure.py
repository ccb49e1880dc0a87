"""Everything handed to Ein, and everything it returned, is watched for changes (C12)."""
from __future__ import annotations

import contextlib
import io
import sys
import warnings

import numpy

from . import case, run
from .ctx import Skip
from .idioms import IDIOMS
from .lang import nd
from .profiles import PROFILES
from .w_idioms import DT, NAMES, draw, expected, real
from .w_programs import LAYOUTS, as_inputs


def base_of(a):
    while isinstance(a.base, numpy.ndarray):
        a = a.base
    return a


def image(a):
    """all that may be observed of an array or tensor without looking at the object's identity"""
    if isinstance(a, numpy.ndarray):
        b = base_of(a)
        fl = a.flags
        return ("np", a.shape, a.strides, a.dtype.str, a.__array_interface__["data"][0], fl.writeable, fl.c_contiguous, fl.f_contiguous,
                a.tobytes(), b.shape, b.tobytes())
    if type(a).__module__.startswith("torch"):
        return ("torch", tuple(a.shape), a.stride(), str(a.dtype), a.data_ptr(), a.requires_grad, a._version, run.as_np(a).tobytes(),
                bytes(a.untyped_storage()) if a.untyped_storage().nbytes() < 4096 else b"")
    return ("jax", tuple(a.shape), str(a.dtype), numpy.asarray(a).tobytes())


FIELDS = {"np": ["kind", "shape", "strides", "dtype", "address", "writeable flag", "C flag", "F flag", "contents", "shape of base", "memory of base"],
          "torch": ["kind", "shape", "strides", "dtype", "address", "requires_grad", "version", "contents", "storage"],
          "jax": ["kind", "shape", "dtype", "contents"]}


class Watch:
    def __init__(self):
        self.items = []

    def add(self, what, a):
        self.items.append((what, a, image(a)))

    def changed(self):
        for what, a, im in self.items:
            now = image(a)
            if now != im:
                return f"{what}: {', '.join(f for f, x, y in zip(FIELDS[im[0]], im, now) if x != y)} changed"
        return None


def ambient():
    import torch

    return (dict(numpy.geterr()), torch.get_default_dtype(), torch.is_grad_enabled(), sys.getrecursionlimit(),
            numpy.random.get_state()[1].tobytes(), torch.random.get_rng_state().numpy().tobytes())


def bits(res):
    return run.as_np(res).tobytes(), tuple(res.shape), str(res.dtype)


class Session:
    """one program evaluated several times, all of its inputs and results watched"""

    def __init__(self, c, label, info):
        self.c, self.label, self.info, self.watch = c, label, info, Watch()

    def bad(self, what):
        self.c.violation(f"{self.label}: {what}", self.info)

    def run(self, how, thunk, expect=None):
        """observe one evaluation; expect: None, or 'error'"""
        c = self.c
        out = io.StringIO()
        before = ambient()
        res, err = None, None
        try:
            with c.observing(), contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = thunk()
        except TimeoutError:
            raise
        except Exception as e:
            err = e
        c.event("evaluations")
        c.event(how)
        if out.getvalue():
            self.bad(f"{how}: wrote {out.getvalue()[:60]!r} to standard output")
        if ambient() != before:
            self.bad(f"{how}: changed the state of the process")
        ch = self.watch.changed()
        if ch:
            self.bad(f"{how}: {ch}")
        if expect == "error":
            if err is None:
                raise Skip("the planned failure did not happen")
            c.event("failed as planned")
        elif err is not None:
            self.bad(f"{how}: {type(err).__name__}: {str(err)[:200]}")
        return res, err is None


def watched(c, label, fun, fun_of, names, types, arrs, exp, ty, tol, backend, r, info):
    """fun: over the real namespace; fun_of(flag): with external functions failing while the flag is up, or None"""
    import ein

    s = Session(c, f"{backend}: {label}", info)
    for k in names:
        s.watch.add("input " + k, arrs[k])
    modes = ["vars", "function", "wrap"] if backend != "naive" else ["vars", "wrap"]
    mode = r.choice(modes)
    first = None
    vs = expr = f = val = env = None
    n0 = len(c.violations)

    def build():
        nonlocal vs, expr, f, val, env
        if mode == "vars":
            vs, expr = ein.with_varargs([run.ein_type(types[k]) for k in names], fun)
            env = {v: arrs[k] for v, k in zip(vs, names)}
        elif mode == "function":
            f = ein.function(fun)
        else:
            val = ein.wrap(fun(*(ein.wrap(arrs[k]) for k in names)))

    s.run("build", build)

    def once():
        if mode == "vars":
            keys = list(env.items())
            try:
                return getattr(ein, "interpret_with_" + backend)(expr, env)
            finally:
                if [k for k, _ in keys] != list(env) or any(env[k] is not a for k, a in keys):
                    s.bad("the environment mapping was modified")
        if mode == "function":
            return getattr(f, backend)(*(arrs[k] for k in names))
        return val.eval(backend=backend)

    results = []
    for n in range(3):
        res, ok = s.run(f"{backend}:{mode}", once)
        if not ok or len(c.violations) > n0:
            return
        d = run.compare(res, exp, ty, tol)
        if d:
            s.bad(f"evaluation {n + 1}: {d}")
            return
        if n and bits(res) != results[0]:
            s.bad(f"evaluation {n + 1} gave other bits than the first")
            return
        results.append(bits(res))
        s.watch.add(f"result {n + 1}", res)
    # results of earlier evaluations are inputs of another program
    last = res

    def reuse():
        if backend == "naive" or (backend == "numpy" and not isinstance(last, numpy.ndarray)):
            return None
        v = ein.wrap(last)
        k = {"b": lambda z: ~z, "i": lambda z: z + 1, "f": lambda z: -(z + 1.0) * 2.0}[run.dims_of(run.lower(ty))[1]]

        def deep(u, d):
            return ein.array(lambda i: deep(u[i], d - 1)) if d else k(u)

        return ein.wrap(deep(v, len(run.dims_of(ty)[0]))).eval(backend=backend)

    if ty[0] not in "tdc":
        s.run("reuse", reuse)
    if fun_of is not None:
        flag = dict(up=False, n=0)
        g = fun_of(flag)
        if mode == "function":
            h = ein.function(g)
            call = lambda: getattr(h, backend)(*(arrs[k] for k in names))
        else:
            vs2, expr2 = ein.with_varargs([run.ein_type(types[k]) for k in names], g)
            env2 = {v: arrs[k] for v, k in zip(vs2, names)}

            def call():
                keys = list(env2.items())
                try:
                    return getattr(ein, "interpret_with_" + backend)(expr2, env2)
                finally:
                    if [k for k, _ in keys] != list(env2) or any(env2[k] is not a for k, a in keys):
                        s.bad("the environment mapping was modified by a failing evaluation")

        flag["up"], flag["n"] = True, r.randint(0, 3)
        try:
            s.run("failing", call, expect="error")
        except Skip:
            return
        flag["up"] = False
        res, ok = s.run("after a failure", call)
        if ok:
            d = run.compare(res, exp, ty, tol)
            if d:
                s.bad(f"after a failed evaluation: {d}")


class Planned(Exception):
    pass


def failing_namespace(flag):
    import ein

    def tick():
        if flag["up"]:
            flag["n"] -= 1
            if flag["n"] < 0:
                raise Planned()

    def ext_f(a, b):
        tick()
        return a * 2.0 + b

    def ext_i(a, b):
        tick()
        return a * 2 - b

    return {**run.namespace(), "EXT": {"ext_f": ein.ext(ext_f, ein.scalar_type(float)), "ext_i": ein.ext(ext_i, ein.scalar_type(int))}}


def programs(c, profile, backends):
    cs = case.make(c.seed, PROFILES[profile])
    if cs is None:
        raise Skip("no program")
    r = c.rng("pure")
    names = list(cs.ins)
    fun = run.build(cs.src, names)
    fun_of = None
    if "EXT[" in cs.src:
        fun_of = lambda flag: eval(f"lambda {', '.join(names)}: {cs.src}", failing_namespace(flag))
    for be in backends:
        if be == "jax" and cs.dynamic:
            continue
        how = {k: r.choice(LAYOUTS + ("ro",)) for k in names}
        conv = r.choice({"torch": ("numpy", "tensor"), "jax": ("numpy", "jnp")}.get(be, ("numpy",)))
        arrs = as_inputs(case.arrays(cs, how, {}), conv, r)
        watched(c, cs.src[:250], fun, fun_of if be != "jax" else None, names, cs.ins, arrs, cs.exp, cs.ty, cs.tol, be, r,
                dict(src=cs.src, backend=be, layouts=how, container=conv, vals={k: case.enc(v) for k, v in cs.vals.items()}))
    c.seen(cs.src)
    c.sample(dict(src=cs.src[:300]))


def idioms(c, backends):
    idm = IDIOMS[NAMES[c.index % len(NAMES)]]
    r = c.rng("pure")
    arrs, sizes = draw(idm, r)
    exp, ty, top = expected(idm.fun, idm.kind, arrs)
    E = real()
    names = [f"p{i}" for i in range(len(arrs))]
    tys = {n: nd(list(a.shape), DT[a.dtype.kind]) for n, a in zip(names, arrs)}
    for be in backends:
        if be == "jax" and not idm.jax:
            continue
        how = [r.choice(LAYOUTS + ("ro",)) for _ in arrs]
        conv = r.choice({"torch": ("numpy", "tensor"), "jax": ("numpy", "jnp")}.get(be, ("numpy",)))
        ins = as_inputs({n: run.relayout(a, h, None) for n, a, h in zip(names, arrs, how)}, conv, r)
        watched(c, f"idiom {idm.name} {sizes}", lambda *xs: idm.fun(E, *xs), None, names, tys, ins, exp, ty,
                None if idm.exact and top < 2**40 else 1e-8 * top, be, r, dict(idiom=idm.name, sizes=sizes, backend=be, layouts=how))
    c.seen(idm.name, sorted(sizes.items()))
    c.sample(dict(idiom=idm.name, sizes=sizes))


# ---------------------------------------------------------------- values that may be the arrays given
def _plan(r, d):
    if d <= 0:
        return r.choice(["a", "a", "b", "row", "col"])
    k = r.choice(["fold", "fold", "fold", "fold", "copy", "colon", "shift", "concat", "layers", "pair", "pair", "where", "reduce", "twice", "assume"])
    n = r.choice([0, 0, 0, 1, 2, "z", "z"])
    step = r.choice(["keep", "keep", "other", "more", "min"])
    return (k, _plan(r, d - 1), _plan(r, d - r.choice([1, 2])), n, step)


def _each(E, f, rank, *vs):
    return E.array(lambda i: _each(E, f, rank - 1, *(v[i] for v in vs))) if rank else f(*vs)


def _make(E, p, env, rank):
    if isinstance(p, str):
        if p in "ab":
            return env[p]
        return env["m"][env["z"]] if p == "row" else E.array(lambda i: env["m"][i, env["z"]])
    k, p, q, n, step = p
    n = env["z"] if n == "z" else n
    v, w = _make(E, p, env, rank), _make(E, q, env, rank)
    each = lambda f, *vs: _each(E, f, rank, *vs)
    to = {"keep": lambda x: x, "other": lambda x: w, "more": lambda x: each(lambda e: e + env["one"], x), "min": lambda x: each(lambda e, g: e.min(g), x, w)}[step]
    if k == "fold":
        return E.fold(v, lambda i, acc: to(acc), count=n)
    if k == "copy":
        return each(lambda e: e, v)
    if k == "colon":
        return v[:]
    if k == "shift":
        return E.array(lambda i: v[i + n], size=v.size(0))
    if k == "concat":
        return v.concat(E.array(lambda i: w[i], size=0))
    if k == "layers":
        return E.array(lambda j, i: v[i], size=(2, v.size(0)))[env["z"]]
    if k == "pair":
        return E.fold((v, w), lambda i, acc: (acc[1], to(acc[0])), count=n)[0]
    if k == "where":
        return E.where(env["z"] > 0, v, w)
    if k == "reduce":
        return E.array(lambda j: v, size=1).reduce(each(lambda e: e - e, v), lambda x, y: each(lambda e, g: e + g, x, y))
    if k == "assume":
        return v.assume(w)
    return each(lambda e, g: e - g, v, v)


def aliases(c, backends):
    """operations on values which are, or might be, the arguments themselves"""
    r = c.rng("alias")
    kind = r.choice("if")
    rank = r.choice([1, 1, 1, 2])
    n = r.choice([1, 2, 3, 4])
    plans = [_plan(r, r.choice([1, 1, 2, 3])) for _ in range(2)]
    top = r.choice(["first", "second", "both", "unary", "loop", "outer", "nested"])
    ops = [r.choice(["add", "mul", "sub", "min"]) for _ in range(3)]
    two = 2 if kind == "i" else 2.0

    def op(k, x, y):
        return x + y if k == "add" else x * y if k == "mul" else x - y if k == "sub" else x.min(y)

    def fun(E, a, b, m, z):
        env = dict(a=a, b=b, m=m, z=z, one=two - 1)
        v, w = (_make(E, p, env, rank) for p in plans)
        each = lambda f, *vs: _each(E, f, rank, *vs)
        if top == "first":
            return each(lambda e: op(ops[0], e, two), v)
        if top == "second":
            return each(lambda e: op(ops[0], E.wrap(two), e), v)
        if top == "both":
            return each(lambda e, g: op(ops[0], e, g), v, w)
        if top == "unary":
            return each(lambda e: op(ops[0], -e, two), v)
        if top == "nested":
            return each(lambda e, g: op(ops[1], op(ops[0], e, two), op(ops[2], g, two)), v, w)
        if top == "outer" and rank == 1:
            return E.array(lambda i, j: op(ops[0], op(ops[1], v[i], two), w[j]))
        return E.fold(v, lambda k, acc: each(lambda e, g: op(ops[0], e, op(ops[1], g, two)), acc, w), count=2)

    shape = (n,) * rank
    dt = {"i": r.choice(["i8", "i8", "i4"]), "f": r.choice(["f8", "f8", "f4"])}[kind]
    fill = lambda s: numpy.array([r.randint(-4, 4) for _ in range(int(numpy.prod(s)))], dtype=dt).reshape(s)
    arrs = [fill(shape), fill(shape), fill((n, n) + shape[1:]), numpy.array(r.choice([0, 0, 0, 1, 2]))]
    exp, ty, _ = expected(fun, kind, arrs)
    E = real()
    names = ["a", "b", "m", "z"]
    tys = {k: nd(list(x.shape), DT[x.dtype.kind]) for k, x in zip(names, arrs)}
    for be in backends:
        how = [r.choice(("C", "C") + LAYOUTS) for _ in arrs]
        conv = r.choice({"torch": ("numpy", "tensor"), "jax": ("numpy", "jnp")}.get(be, ("numpy",)))
        ins = as_inputs({k: run.relayout(x, h, None) for k, x, h in zip(names, arrs, how)}, conv, r)
        watched(c, f"{top} of {plans}", lambda *xs: fun(E, *xs), None, names, tys, ins, exp, ty, None, be, r,
                dict(plans=str(plans), top=top, ops=ops, backend=be, layouts=how, inputs=[x.tolist() for x in arrs]))
    c.seen(str(plans), top, ops)
    c.sample(dict(plans=str(plans), top=top))


# ---------------------------------------------------------------- failures at any point
class Fault:
    """counts the lines of Ein run through, and raises an exception at one of them"""

    TOOL = 3  # of sys.monitoring

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n, self.where = at, exc, 0, None

    def hook(self, code, line):
        if "/ein/" not in code.co_filename:
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n == self.at:
            self.where = f"{code.co_name}:{line}"
            raise self.exc

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "einrv-faults")
        m.register_callback(self.TOOL, m.events.LINE, self.hook)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)


class Attempt:
    """a program built and evaluated in one of several ways, from where it was left off"""

    def __init__(self, s, fun, names, types, arrs, mode, backend):
        self.s, self.fun, self.names, self.types, self.arrs, self.mode, self.backend = s, fun, names, types, arrs, mode, backend
        self.made = None

    def __call__(self):
        import ein

        if self.made is None:
            if self.mode == "vars":
                vs, expr = ein.with_varargs([run.ein_type(self.types[k]) for k in self.names], self.fun)
                self.made = expr, {v: self.arrs[k] for v, k in zip(vs, self.names)}
            elif self.mode == "function":
                self.made = ein.function(self.fun)
            else:
                self.made = ein.wrap(self.fun(*(ein.wrap(self.arrs[k]) for k in self.names)))
        if self.mode == "vars":
            expr, env = self.made
            keys = list(env.items())
            try:
                return getattr(ein, "interpret_with_" + self.backend)(expr, env)
            finally:
                if [k for k, _ in keys] != list(env) or any(env[k] is not a for k, a in keys):
                    self.s.bad("the environment mapping was modified")
        if self.mode == "function":
            return getattr(self.made, self.backend)(*(self.arrs[k] for k in self.names))
        return self.made.eval(backend=self.backend)


def stopped(c, s, label, fun, names, types, arrs, exp, ty, tol, backend, r, modes=None):
    mode = r.choice(modes or (["function", "function", "vars", "wrap"] if backend != "naive" else ["vars", "wrap"]))
    for k in names:
        s.watch.add("input " + k, arrs[k])
    n0 = len(c.violations)

    def right(how, go):
        res, ok = s.run(how, go)
        if not ok or len(c.violations) > n0:
            return False
        d = run.compare(res, exp, ty, tol)
        if d:
            s.bad(f"{how}: {d}")
        return not d

    first, fresh = (Attempt(s, fun, names, types, arrs, mode, backend) for _ in range(2))
    f = Fault()

    def counted():
        with f:
            return first()

    if not right("undisturbed", counted):
        return
    g = Fault()

    def again():
        with g:
            return first()

    if not right("undisturbed again", again):
        return
    for step in range(r.choice([1, 2, 2, 3])):
        # early, late or anywhere; of a program never evaluated before, or of one that was
        who, lines = r.choice([(fresh, f.n), (fresh, f.n), (first, g.n)])
        at = r.choice([r.randint(1, max(1, lines)), r.randint(1, max(1, lines)), max(1, lines - r.randint(0, 60)), r.randint(1, min(60, max(1, lines)))])
        fault = Fault(at, r.choice([MemoryError, Planned])("planned"))

        def disturbed():
            with fault:
                return who()

        try:
            s.run("stopped", disturbed, expect="error")
        except Skip:
            c.event("not stopped")
        else:
            c.event("stopped in " + str(fault.where).split(":")[0])
            s.info["stopped at"] = s.info.get("stopped at", []) + [fault.where]
        if len(c.violations) > n0:
            return
        if r.random() < 0.8 and not right("after being stopped", fresh):
            return
        if r.random() < 0.4 and not right("another after being stopped", first):
            return
    right("after being stopped", fresh)
    right("another after being stopped", first)


def stopped_programs(c, profile, backends):
    """an exception at any line of Ein, in building, staging or evaluation, does not matter for what follows"""
    cs = case.make(c.seed, PROFILES[profile])
    if cs is None:
        raise Skip("no program")
    r = c.rng("stopped")
    names = list(cs.ins)
    be = backends[c.index % len(backends)]
    how = {k: r.choice(LAYOUTS + ("ro",)) for k in names}
    arrs = as_inputs(case.arrays(cs, how, {}), "numpy", r)
    info = dict(src=cs.src, backend=be, layouts=how, vals={k: case.enc(v) for k, v in cs.vals.items()})
    s = Session(c, f"{be}: {cs.src[:250]}", info)
    stopped(c, s, cs.src, run.build(cs.src, names), names, cs.ins, arrs, cs.exp, cs.ty, cs.tol, be, r)
    c.seen(cs.src)
    c.sample(dict(src=cs.src[:300], stopped=info.get("stopped at")))


def stopped_idioms(c, backends, modes=None):
    idm = IDIOMS[NAMES[c.index % len(NAMES)]]
    r = c.rng("stopped")
    arrs, sizes = draw(idm, r)
    exp, ty, top = expected(idm.fun, idm.kind, arrs)
    E = real()
    names = [f"p{i}" for i in range(len(arrs))]
    tys = {n: nd(list(a.shape), DT[a.dtype.kind]) for n, a in zip(names, arrs)}
    be = backends[c.index // len(NAMES) % len(backends)]
    how = [r.choice(LAYOUTS + ("ro",)) for _ in arrs]
    ins = {n: run.relayout(a, h, None) for n, a, h in zip(names, arrs, how)}
    info = dict(idiom=idm.name, sizes=sizes, backend=be, layouts=how)
    s = Session(c, f"{be}: idiom {idm.name} {sizes}", info)
    stopped(c, s, idm.name, lambda *xs: idm.fun(E, *xs), names, tys, ins, exp, ty, None if idm.exact and top < 2**40 else 1e-8 * top, be, r, modes)
    c.seen(idm.name, sorted(sizes.items()))
    c.sample(dict(idiom=idm.name, sizes=sizes, stopped=info.get("stopped at")))

"""Threads sharing programs, functions, environments and arrays (C14)."""
from __future__ import annotations

import hashlib
import io
import random
import sys
import threading
import time
import warnings

import numpy

from . import case, run
from .ctx import Skip
from .idioms import IDIOMS
from .lang import nd
from .profiles import PROFILES
from .w_idioms import DT, NAMES, draw, expected, real
from .w_staged import POLY, fresh_args

TOOL = 4  # of sys.monitoring
BACKENDS = ("numpy", "numpy", "torch", "naive")


class Schedule:
    """gives up the processor at random calls, lines or instructions inside of Ein, and records who was running"""

    def __init__(self, seed, rate, at="calls"):
        self.seed, self.rate, self.trace, self.yields = seed, rate, [], 0
        self.at = at
        self.local = threading.local()

    def hook(self, code, offset):
        if "/ein/" not in code.co_filename:
            return sys.monitoring.DISABLE
        r = getattr(self.local, "r", None)
        if r is None:
            return
        x = r.random()
        if x < self.rate and self.yields < 4000:
            self.yields += 1
            self.trace.append(self.local.me)
            time.sleep(0 if x < self.rate * 0.7 else r.random() * 2e-4)

    def enter(self, me):
        self.local.me, self.local.r = me, random.Random(f"{self.seed}/{me}")

    def leave(self):
        self.local.r = None

    def __enter__(self):
        if self.rate:
            m = sys.monitoring
            m.use_tool_id(TOOL, "einrv")
            e = {"calls": m.events.PY_START, "lines": m.events.LINE, "instructions": m.events.INSTRUCTION}[self.at]
            m.register_callback(TOOL, e, self.hook)
            m.set_events(TOOL, e)
            m.restart_events()
        return self

    def __exit__(self, *a):
        if self.rate:
            m = sys.monitoring
            m.set_events(TOOL, 0)
            for e in (m.events.PY_START, m.events.LINE, m.events.INSTRUCTION):
                m.register_callback(TOOL, e, None)
            m.free_tool_id(TOOL)

    def digest(self):
        switches = [a for a, b in zip(self.trace, self.trace[1:]) if a != b]
        return hashlib.blake2b(bytes(self.trace), digest_size=8).hexdigest(), len(switches)


class Task:
    """a thunk with the answer it has to give"""

    def __init__(self, label, thunk, exp, ty, tol, info):
        self.label, self.thunk, self.exp, self.ty, self.tol, self.info = label, thunk, exp, ty, tol, info


def together(c, tasks_of, rate, at="calls"):
    """every thread runs its tasks; all start at once"""
    n = len(tasks_of)
    sched = Schedule(c.seed, rate, at)
    gate = threading.Barrier(n)
    got = [[] for _ in range(n)]

    def main(me):
        gate.wait()
        sched.enter(me)
        try:
            for t in tasks_of[me]:
                try:
                    got[me].append(("ok", t.thunk()))
                except BaseException as e:
                    got[me].append(("error", f"{type(e).__name__}: {str(e)[:200]}"))
        finally:
            sched.leave()

    old = sys.getswitchinterval()
    sys.setswitchinterval(c.rng('interval').choice([1e-5, 1e-4, 1e-3]))
    try:
        with c.observing(), sched:
            ths = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
    finally:
        sys.setswitchinterval(old)
    for me, tasks in enumerate(tasks_of):
        for t, (st, v) in zip(tasks, got[me]):
            c.event("evaluations")
            if st == "ok":
                d = run.compare(v, t.exp, t.ty, t.tol) if t.exp is not None else (None if v == t.ty else f"{str(v)[:200]!r}, expected {t.ty!r}")
            else:
                d = v
            if d is not None:
                c.violation(f"with {n} threads: {t.label}: {d}", dict(threads=n, **t.info))
                return
    d, switches = sched.digest()
    c.event("switches between threads inside of Ein", switches)
    c.event("yields injected", sched.yields)
    c.event("threads", n)
    return d


def threads_of(r):
    return r.choice([2, 3, 4, 6])


def functions(c, rate=0.02):
    """staged functions first called by several threads at once"""
    import ein

    r = c.rng("threads")
    E = real()
    n = threads_of(r)
    tasks = [[] for _ in range(n)]
    bodies = r.sample(sorted(POLY, key=lambda f: f.__name__), 2)
    fs = []
    for b in bodies:
        k = float(r.randint(-3, 3))
        fs.append((b, k, ein.function((lambda b, k: lambda *xs: b(E, k, *xs))(b, k))))
    idm = IDIOMS[NAMES[c.index % len(NAMES)]]
    fi = ein.function(lambda *xs: idm.fun(E, *xs))
    shared = {}
    for me in range(n):
        for _ in range(4):
            if r.random() < 0.5:
                arrs, sizes = draw(idm, r)
                fun, f, kind, label, exact = idm.fun, fi, idm.kind, f"idiom {idm.name}", idm.exact
            else:
                b, k, f = r.choice(fs)
                if b in shared and r.random() < 0.6:
                    arrs, kind = shared[b]  # the same array objects
                else:
                    arrs, kind = shared.setdefault(b, fresh_args(r, b))
                fun, label, exact = (lambda b, k: lambda S, *xs: b(S, k, *xs))(b, k), b.__name__, True
            try:
                exp, ty, top = expected(fun, kind, arrs)
            except Skip:
                continue
            be = r.choice(["numpy", "numpy", "torch"])
            tasks[me].append(Task(f"{label} on {be}", (lambda f, be, arrs: lambda: getattr(f, be)(*arrs))(f, be, arrs), exp, ty,
                                  None if exact and top < 2**40 else 1e-8 * top, dict(label=label, backend=be, inputs=[a.tolist() for a in arrs])))
    d = together(c, tasks, rate)
    c.seen(d)
    c.sample(dict(threads=n, idiom=idm.name, bodies=[b.__name__ for b in bodies]))


def reads(S, a, j):
    return S.array(lambda i: a[j[i]])


def gathers(S, a, j):
    return S.array(lambda r: a[r, j[r]])


def moved(S, a, n):
    return S.array(lambda i: a[i + n] * 2 + a[i], size=a.size())


def totals(S, a, n):
    return S.array(lambda r: S.fold(a[r, 0], lambda k, acc: acc + a[r, k] * (k + n), count=n))


def combined(S, a, n):
    return S.array(lambda r: S.array(lambda k: a[r, k] + n).reduce(S.wrap(0), lambda x, y: x + y))


HOT = {reads: "aj", gathers: "mj", moved: "an", totals: "mn", combined: "mn"}


def hot_args(r, b, shape):
    n, m = shape
    arr = lambda *s: numpy.array([r.randint(-9, 9) for _ in range(int(numpy.prod(s)))], dtype=r.choice(["i8", "i8", "i4"])).reshape(s)
    pick = {"a": lambda: arr(n), "m": lambda: arr(n, m), "n": lambda: numpy.array(r.randint(0, 4)),
            "j": lambda: numpy.array([r.randint(-1, n) for _ in range(n)])}
    return [pick[k]() for k in HOT[b]]


def hot(c, rate=0.1, at="lines", calls=10):
    """functions staged before, called again and again by threads with arguments of their own"""
    import ein

    r = c.rng("threads")
    E = real()
    n = threads_of(r)
    b = r.choice(sorted(HOT, key=lambda f: f.__name__)) if r.random() < 0.6 else r.choice(sorted(POLY, key=lambda f: f.__name__))
    k = float(r.randint(-3, 3))
    py = (lambda S, *xs: b(S, *xs)) if b in HOT else (lambda S, *xs: b(S, k, *xs))
    f = ein.function(lambda *xs: py(E, *xs))
    shape = r.choice([1, 2, 3, 5]), r.choice([1, 2, 4])
    bes = r.choice([["numpy"], ["numpy"], ["torch"], ["numpy", "torch"]])
    pool = []
    for _ in range(2 * n):
        if b in HOT:
            arrs, kind = hot_args(r, b, shape), "i"
        else:
            arrs, kind = fresh_args(r, b, n=(1, 2, 3))
        try:
            exp, ty, top = expected(py, kind, arrs)
        except Skip:
            continue
        pool.append((arrs, exp, ty))
    if len(pool) < n:
        raise Skip("no arguments")
    if r.random() < 0.8:
        with c.observing():
            for arrs, _, _ in pool:
                for be in bes:
                    getattr(f, be)(*arrs)
    tasks = []
    for me in range(n):
        mine = r.sample(pool, 2) if r.random() < 0.3 else [pool[me]]
        row = []
        for _ in range(calls):
            (arrs, exp, ty), be = r.choice(mine), r.choice(bes)
            row.append(Task(f"{b.__name__} on {be}", (lambda be, arrs: lambda: getattr(f, be)(*arrs))(be, arrs), exp, ty, None,
                            dict(label=b.__name__, backend=be, inputs=[a.tolist() for a in arrs])))
        tasks.append(row)
    d = together(c, tasks, rate, at)
    c.seen(d)
    c.event("calls of staged functions", n * calls)
    c.sample(dict(threads=n, body=b.__name__, at=at))


def programs(c, profile, rate=0.02):
    """one program and one environment evaluated by all threads, while others build programs of their own"""
    import ein

    r = c.rng("threads")
    n = threads_of(r)
    css = []
    for q in range(2):
        cs = case.make(f"{c.seed}/{q}", PROFILES[profile])
        if cs is not None and cs.body.size() <= 90:
            css.append(cs)
    if not css:
        raise Skip("no program")
    progs = []
    for cs in css:
        fun = run.build(cs.src, list(cs.ins))
        arrs = case.arrays(cs)
        vs, expr = ein.with_varargs([run.ein_type(t) for t in cs.ins.values()], fun)
        env = {v: a for v, a in zip(vs, arrs.values())}
        val = None
        try:
            val = ein.wrap(fun(*(ein.wrap(a) for a in arrs.values())))
        except Exception:
            pass
        progs.append((cs, fun, arrs, expr, env, val))
    tasks = [[] for _ in range(n)]
    for me in range(n):
        for _ in range(3):
            cs, fun, arrs, expr, env, val = r.choice(progs)
            be = r.choice(BACKENDS)
            how = r.choice(["expr", "expr", "build", "value"])
            if how == "expr":
                thunk = (lambda be, expr, env: lambda: getattr(ein, "interpret_with_" + be)(expr, env))(be, expr, env)
            elif how == "value" and val is not None:
                thunk = (lambda be, val: lambda: val.eval(backend=be))(be, val)
            else:
                thunk = (lambda be, fun, arrs, ins: lambda: run.execute(fun, arrs, ins, be, "vars"))(be, fun, arrs, cs.ins)
            tasks[me].append(Task(f"{how} on {be}: {cs.src[:200]}", thunk, cs.exp, cs.ty, cs.tol, dict(src=cs.src, backend=be, how=how)))
    keys = [(env, list(env.items())) for *_, env, _ in progs]
    d = together(c, tasks, rate)
    for env, items in keys:
        if list(env) != [k for k, _ in items] or any(env[k] is not a for k, a in items):
            c.violation("the shared environment was modified", dict(src=css[0].src))
    c.seen(d)
    c.sample(dict(threads=n, src=css[0].src[:200]))


def printing(c, profile="small", rate=0.02):
    """printing concurrently with evaluation gives the text it gives alone"""
    import ein
    from . import w_print

    r = c.rng("threads")
    cs = case.make(c.seed, PROFILES[profile])
    if cs is None:
        raise Skip("no program")
    fun = run.build(cs.src, list(cs.ins))
    vs, expr = ein.with_varargs([run.ein_type(t) for t in cs.ins.values()], fun)
    env = {v: a for v, a in zip(vs, case.arrays(cs).values())}
    n = threads_of(r)
    tasks = [[] for _ in range(n)]
    for me in range(n):
        for _ in range(3):
            if r.random() < 0.5:
                p = r.choice(w_print.printers())
                tasks[me].append(Task(f"print {cs.src[:200]}", (lambda p: lambda: bool(p(expr)))(p), None, True, None, dict(src=cs.src)))
            else:
                be = r.choice(BACKENDS)
                tasks[me].append(Task(f"{be}: {cs.src[:200]}", (lambda be: lambda: getattr(ein, "interpret_with_" + be)(expr, env))(be), cs.exp, cs.ty, cs.tol, dict(src=cs.src)))
    d = together(c, tasks, rate)
    c.seen(d)
    c.sample(dict(src=cs.src[:200], threads=n))

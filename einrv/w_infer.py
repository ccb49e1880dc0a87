"""Omitted sizes: forms in which an index determines its size, forms in which none does, and time (C09)."""
from __future__ import annotations

import time

import numpy

from . import run
from .ctx import Skip
from .w_idioms import shadowed

# a form takes (E, env, i) and gives a float using i; env: x[n] v[n] m[n,n] p[n] ints, c scalar int
DIRECT = {
    "x": lambda E, e, i: e.x[i],
    "p": lambda E, e, i: e.x[e.p[i]],
    "p_float": lambda E, e, i: e.p[i].float(),
    "row": lambda E, e, i: e.m[i, 0],
    "col": lambda E, e, i: e.m[0, i],
    "col_split": lambda E, e, i: e.m[0][i],
    "colon": lambda E, e, i: e.m[:, 0][i],
    "plain_colon": lambda E, e, i: e.x[:][i],
    "diag": lambda E, e, i: e.m[i, i],
    "computed": lambda E, e, i: E.array(lambda q: e.x[q] * 2.0)[i],
    "computed_sized": lambda E, e, i: E.array(lambda q: q.float(), size=e.x.size(0))[i],
    "computed_shift": lambda E, e, i: E.array(lambda q: e.x[q - 1], size=e.x.size(0))[i],
    "computed2": lambda E, e, i: E.array(lambda q, r: e.m[r, q] + e.x[q])[1, i],
    "record": lambda E, e, i: {"a": e.x, "b": e.m}["a"][i],
    "record_array": lambda E, e, i: E.array(lambda q: (e.x[q], e.p[q]))[i][0],
    "record_array2": lambda E, e, i: E.array(lambda q: {"u": e.x[q], "w": (e.p[q], e.m[q, 0])})[i]["w"][1],
    "record_matrix": lambda E, e, i: E.array(lambda q, r: (e.m[q, r], e.m[r, q]))[i, 0][1],
    "where_vec": lambda E, e, i: E.where(e.c > 0, e.x, e.v)[i],
    "fold_elem": lambda E, e, i: E.fold(0.0, lambda k, a: a + e.m[k, i] * e.v[k]),
    "fold_vec": lambda E, e, i: E.fold(e.x, lambda k, a: E.array(lambda q: a[q] + e.m[k, q]))[i],
    "fold_vec_count": lambda E, e, i: E.fold(e.x, lambda k, a: E.array(lambda q: a[q] * 2.0), count=2)[i],
    "reduce_elem": lambda E, e, i: E.array(lambda q: e.m[q, i]).reduce(0.0, lambda a, b: a + b),
    "reduce_vec": lambda E, e, i: e.m.reduce(E.array(lambda q: 0.0 * e.x[q]), lambda a, b: E.array(lambda q: a[q].max(b[q])))[i],
    "std_sum": lambda E, e, i: E.fold_sum(lambda k: e.m[i, k]),
    "under_where": lambda E, e, i: E.where(e.c > 100, e.x[i], 1.0),
    "under_cond": lambda E, e, i: E.where(e.p[i] > 1, 2.0, 3.0),
    "let_row": lambda E, e, i: (lambda row: row[0] * row[1])(e.m[i]),
    "inner": lambda E, e, i: E.array(lambda q: e.m[q, i] + 0.0 * e.x[q])[0],
    "assume": lambda E, e, i: E.array(lambda q: q.float(), size=e.x.size(0)).assume(e.x)[i],
    "or_empty": lambda E, e, i: e.x.or_empty(i, 5.0),
    "typed": lambda E, e, i: E.array1(lambda q: e.x[q])[i] if hasattr(E, "array1") else E.array(lambda q: e.x[q])[i],
    "slice2": lambda E, e, i: E.array(lambda a, b: e.m[a, b] + 1.0)[:, 0][i],
    "concat_len": lambda E, e, i: e.x[i] + e.x.concat(e.v)[i + 1],
}
# uses of i which leave its size open
OPEN = {
    "value": lambda E, e, i: i.float(),
    "shift": lambda E, e, i: e.x[i + 1],
    "shift0": lambda E, e, i: e.x[i + 0],
    "unshift": lambda E, e, i: e.x[i - 1],
    "double": lambda E, e, i: e.x[i * 2],
    "mod": lambda E, e, i: e.x[i % 3],
    "min": lambda E, e, i: e.x[i.min(2)],
    "clip": lambda E, e, i: e.x[i.max(0).min(e.x.size(0) - 1)],
    "where": lambda E, e, i: e.x[E.where(i > 1, i, 0)],
    "unused": lambda E, e, i: e.x[0],
    "unused_scalar": lambda E, e, i: E.wrap(1.0) + e.x[1],
    "cond": lambda E, e, i: E.where(i > 2, 1.0, e.x[0]),
    "inner_shift": lambda E, e, i: E.array(lambda q: e.x[q] * i.float())[0],
    "count": lambda E, e, i: E.fold(0.0, lambda k, a: a + 1.0, count=i),
    "negated": lambda E, e, i: e.x[-i],
    "fold_open": lambda E, e, i: E.fold(0.0, lambda k, a: a + e.x[k] * i.float()),
    "two": lambda E, e, i: e.m[i + 1, i - 1],
}


class Env:
    pass


def env_of(x, v, m, p, c):
    e = Env()
    e.x, e.v, e.m, e.p, e.c = x, v, m, p, c
    return e


def inputs(r, n):
    x, v = (numpy.array([float(r.randint(-4, 4)) for _ in range(n)], numpy.float64) for _ in range(2))
    m = numpy.array([[float(r.randint(-4, 4)) for _ in range(n)] for _ in range(n)], numpy.float64).reshape(n, n)
    p = numpy.array([r.randrange(max(n, 1)) for _ in range(n)], numpy.int64)
    return [x, v, m, p, numpy.array(r.randint(-1, 2), numpy.int64)]


SHAPES = ["array", "array", "pair", "fold", "nested", "in_fold", "acc", "sum", "records", "reduce_arg", "std", "size_of"]


def wrapper(shape, f, g):
    """f is a form that determines the size"""

    def fun(E, *arrs):
        e = env_of(*arrs)
        if shape == "array":
            return E.array(lambda i: f(E, e, i) + g(E, e, i))
        if shape == "pair":
            return E.array(lambda i, j: f(E, e, i) * 2.0 - f(E, e, j) + g(E, e, j))
        if shape == "fold":
            return E.fold(0.0, lambda i, a: a * 0.5 + f(E, e, i) + g(E, e, i))
        if shape == "sum":
            return E.fold_sum(lambda i: f(E, e, i) * e.c.float())
        if shape == "std":
            return E.fold_max(lambda i: f(E, e, i)).max(-50.0) + E.reduce_sum(lambda i: f(E, e, i))
        if shape == "nested":
            return E.array(lambda j: E.array(lambda i: f(E, e, i) + e.x[j]))
        if shape == "in_fold":
            return E.fold(e.x, lambda k, a: E.array(lambda i: a[i] * 0.5 + f(E, e, i)), count=2)
        if shape == "acc":
            return E.fold(0.0, lambda k, a: a + E.fold(a, lambda i, b: b * 0.5 + f(E, e, i)), count=2)
        if shape == "records":
            return E.array(lambda i: (f(E, e, i), g(E, e, i)))[0][0]
        if shape == "reduce_arg":
            return E.array(lambda i: f(E, e, i)).reduce(0.0, lambda a, b: a + b)
        return E.array(lambda i: f(E, e, i)).size(0)

    return fun


def accepted(c, backends):
    r = c.rng("acc")
    names = sorted(DIRECT)
    fn = names[c.index % len(names)]
    gn = r.choice(sorted(set(OPEN) - {"count"})) if r.random() < 0.5 else r.choice(names)  # sizes that vary by element are not offered
    shape = r.choice(SHAPES)
    n = r.choice([0, 1, 2, 3, 4]) if shape != "records" else r.choice([1, 2, 3])
    arrs = inputs(r, n)
    shadowed(c, f"size of {shape} by {fn}, {gn}, n={n}", wrapper(shape, DIRECT[fn], {**DIRECT, **OPEN}[gn]),
             "i" if shape == "size_of" else "f", arrs, backends, r, exact=False, info=dict(form=fn, other=gn, shape=shape, n=n))
    c.seen(fn, gn, shape, n)
    c.sample(dict(form=fn, other=gn, shape=shape, n=n))


def rejected(c):
    import ein

    r = c.rng("rej")
    names = sorted(OPEN)
    fn, gn = names[c.index % len(names)], r.choice(names)
    f, g = OPEN[fn], OPEN[gn]
    arrs = inputs(r, 3)
    e = env_of(*(ein.wrap(a) for a in arrs))
    E = run.namespace()

    class N:
        pass

    n = N()
    n.__dict__.update(E)
    both = lambda i: f(n, e, i) + g(n, e, i)
    programs = {
        "array": lambda: E["array"](both),
        "array of records": lambda: E["array"](lambda i: (f(n, e, i), g(n, e, i))),
        "second index": lambda: E["array"](lambda j, i: e.x[j] + both(i)),
        "first index": lambda: E["array"](lambda i, j: e.x[j] + both(i)),
        "nested": lambda: E["array"](lambda j: e.x[j] + E["array"](both)[0]),
        "fold": lambda: E["fold"](0.0, lambda i, a: a + both(i)),
        "fold in array": lambda: E["array"](lambda j: E["fold"](e.x[j], lambda i, a: a + both(i))),
        "fold_sum": lambda: E["fold_sum"](both),
        "reduce_max": lambda: E["reduce_max"](both),
        "array in fold": lambda: E["fold"](0.0, lambda k, a: a + E["array"](both)[k], count=2),
        "function": lambda: ein.function(lambda y: E["array"](lambda i: y[0] + both(i))).numpy(arrs[0]),
        # the accumulator's own length cannot be the number of steps
        "by accumulator": lambda: E["fold"](e.x, lambda i, a: E["array"](lambda q: a[q] + a[i])),
    }
    k = r.choice(sorted(programs))
    c.event("evaluations")
    with c.observing():
        try:
            programs[k]()
            raised = None
        except (ValueError, TypeError) as ex:
            raised = ex
        except Exception as ex:
            raised = ex
            c.event("rejected by " + type(ex).__name__)
    if raised is None:
        c.violation(f"{k}: size accepted although the index is only used as {fn}, {gn}", dict(shape=k, form=fn, other=gn))
    c.seen(k, fn, gn)
    c.sample(dict(shape=k, form=fn, other=gn))


def chains(E, x, kind, d):
    array, fold = E["array"], E["fold"]
    if kind == "doubling":
        def body(i):
            s = x[i]
            for _ in range(d):
                s = s + s
            return s

        return array(body)
    v = x
    for k in range(d):
        if kind == "arrays":
            v = (lambda u: array(lambda i: u[i] + u[i]))(v)
        elif kind == "arrays2":
            v = (lambda u: array(lambda i: u[i] * 0.5 + u[u.size(0) - 1 - i] * 0.5))(v)
        elif kind == "records":
            v = (lambda u: array(lambda i: (lambda t: t[0] + t[1])((u[i], u[i] * 2.0))))(v)
        elif kind == "folds":
            v = (lambda u: array(lambda i: fold(u[i], lambda k, a: a + u[k] * 0.0)))(v)
        elif kind == "matrix":
            v = (lambda u: array(lambda i: array(lambda j: u[j] + u[i] - u[j])[i]))(v)
        elif kind == "concat":
            v = (lambda u: array(lambda i: u[i] + u.concat(u)[i]))(v)
        elif kind == "lets":
            v = (lambda u: (lambda w: array(lambda i: w[i] + u[i]))(array(lambda i: u[i] * 2.0)))(v)
    return v


KINDS = {"doubling": 120, "arrays": 40, "arrays2": 30, "records": 14, "folds": 10, "matrix": 12, "lets": 20}


def polynomial(c, limit=12.0):
    """building (with inferred sizes) a program of d shared layers takes a time that does not double with every layer"""
    r = c.rng("poly")
    kind = sorted(KINDS)[c.index % len(KINDS)]
    d = KINDS[kind]
    x = run.namespace()["wrap"](numpy.arange(1.0, r.choice([3, 4, 5])))
    with c.observing():
        t = time.process_time()
        v = chains(run.namespace(), x, kind, d)
        t = time.process_time() - t
    c.event("evaluations")
    c.event("layers", d)
    if t > limit:
        c.violation(f"building {d} layers of {kind} took {t:.1f} s", dict(kind=kind, layers=d))
    c.seen(kind)
    c.sample(dict(kind=kind, layers=d, seconds=round(t, 3)))

"""Traced peak of allocations of folds that combine several elements selected by the counter (C19)."""
from __future__ import annotations

import gc
import tracemalloc

import numpy

from . import run
from .ctx import Skip

FACTOR, SLACK = 8, 3 << 20


class Num:
    """the same formulas on NumPy arrays"""

    @staticmethod
    def min(a, b):
        return numpy.minimum(a, b)

    @staticmethod
    def max(a, b):
        return numpy.maximum(a, b)

    @staticmethod
    def where(c, a, b):
        return numpy.where(c, a, b)

    sin, abs, exp = staticmethod(numpy.sin), staticmethod(numpy.abs), staticmethod(numpy.exp)


class Ein:
    @staticmethod
    def min(a, b):
        return a.min(b)

    @staticmethod
    def max(a, b):
        return a.max(b)

    @staticmethod
    def where(c, a, b):
        import ein

        return ein.where(c, a, b)

    @staticmethod
    def sin(a):
        return a.sin()

    @staticmethod
    def abs(a):
        return a.abs()

    @staticmethod
    def exp(a):
        return a.exp()


# operands: a (first index and counter), b (second index and counter), w (counter only), c (both indices)
COMBINE = {
    "product": ("ab", lambda E, a, b: a * b),
    "sum": ("ab", lambda E, a, b: a + b),
    "difference squared": ("ab", lambda E, a, b: (a - b) * (a - b)),
    "power": ("ab", lambda E, a, b: (a - b) ** 2),
    "distance": ("ab", lambda E, a, b: E.abs(a - b)),
    "smaller": ("ab", lambda E, a, b: E.min(a, b)),
    "chosen": ("ab", lambda E, a, b: E.where(a < b, a * 2.0, b)),
    "negated": ("ab", lambda E, a, b: -(a * b)),
    "sine": ("ab", lambda E, a, b: E.sin(a) * b),
    "sine of sum": ("ab", lambda E, a, b: E.sin(a + b)),
    "weighted": ("abw", lambda E, a, b, w: a * b * w),
    "weighted sum": ("abw", lambda E, a, b, w: (a + b) * w),
    "weighted first": ("abw", lambda E, a, b, w: w * a * b),
    "two products": ("abw", lambda E, a, b, w: a * b + w * a),
    "difference of products": ("abw", lambda E, a, b, w: a * w - b * w),
    "scaled": ("abc", lambda E, a, b, c: c * a * b),
    "scaled last": ("abc", lambda E, a, b, c: a * b * c),
    "offset": ("abc", lambda E, a, b, c: a + b + c),
    "offset inside": ("abc", lambda E, a, b, c: E.max(a + b, c)),
    "row": ("aw", lambda E, a, w: a * w),
    "row sum": ("aw", lambda E, a, w: a + w),
    "one": ("a", lambda E, a: E.sin(a)),
    "shared": ("ab", lambda E, a, b: (lambda s: s * s + s)(a - b)),
    "exponential": ("ab", lambda E, a, b: E.exp(-(E.abs(a - b)))),
}
FOLDS = ("fold_sum", "fold_min", "fold_max", "plus", "plus from one", "reversed plus", "min", "max", "chosen", "decay", "pair", "argmin", "count",
         "double")


def final(style, t):
    """the fold over the last axis of the terms"""
    if style in ("fold_sum", "plus", "reversed plus", "double"):
        return t.sum(-1)
    if style == "plus from one":
        return 1.0 + t.sum(-1)
    if style in ("fold_min", "min", "chosen"):
        return t.min(-1)
    if style in ("fold_max", "max"):
        return t.max(-1)
    if style == "argmin":
        return t.argmin(-1)
    if style == "count":
        return (t > 0.5).sum(-1)
    if style == "pair":
        return t.sum(-1) + t.max(-1)
    if style == "decay":
        out = numpy.zeros(t.shape[:-1])
        for k in range(t.shape[-1]):
            out = out * 0.5 + t[..., k]
        return out
    raise AssertionError(style)


def folded(style, term, K):
    import ein
    from ein.frontend import std

    count = K
    if style in ("fold_sum", "fold_min", "fold_max"):
        return getattr(std, style)(term, count) if count is not None else getattr(std, style)(term)
    if style == "argmin":
        return std.fold_argmin(term, count) if count is not None else std.fold_argmin(term)
    steps = {
        "plus": (0.0, lambda k, acc: acc + term(k)),
        "plus from one": (1.0, lambda k, acc: acc + term(k)),
        "reversed plus": (0.0, lambda k, acc: term(k) + acc),
        "double": (0.0, lambda k, acc: acc + term(k)),
        "min": (float("inf"), lambda k, acc: acc.min(term(k))),
        "max": (float("-inf"), lambda k, acc: term(k).max(acc)),
        "chosen": (float("inf"), lambda k, acc: (lambda t: ein.where(t < acc, t, acc))(term(k))),
        "decay": (0.0, lambda k, acc: acc * 0.5 + term(k)),
        "count": (0, lambda k, acc: acc + ein.where(term(k) > 0.5, 1, 0)),
    }
    if style == "pair":
        r = ein.fold((0.0, float("-inf")), lambda k, acc: (lambda t: (acc[0] + t, acc[1].max(t)))(term(k)), count)
        return r[0] + r[1]
    init, step = steps[style]
    return ein.fold(ein.wrap(init), step, count)


def folds(c, sizes=((96, 112, 208), (160, 96, 160), (64, 256, 128), (200, 60, 300), (32, 32, 2500))):
    import ein

    run.namespace()
    r = c.rng("memory")
    names = sorted(COMBINE)
    combo = names[c.index % len(names)]
    style = FOLDS[(c.index // len(names) + c.index) % len(FOLDS)]
    ops, f = COMBINE[combo]
    n, m, K = r.choice(sizes)
    # how the operands are stored and reached
    at = r.choice([0, 1]), r.choice([0, 1])
    reach = r.choice(["plain", "plain", "plain", "reversed", "lookup", "clipped"])
    flat = r.choice(["two", "nested", "swapped", "let"])
    infer = reach == "plain" and r.random() < 0.5
    mode = r.choice(["wrap", "function", "vars"])
    rng = numpy.random.default_rng(r.randrange(2**32))
    A, B, W, C = rng.normal(size=(n, K)), rng.normal(size=(m, K)), rng.normal(size=K), rng.normal(size=(n, m))
    perm = rng.permutation(K)
    given = dict(a=A if at[0] else numpy.ascontiguousarray(A.T), b=B if at[1] else numpy.ascontiguousarray(B.T), w=W, c=C, p=perm)
    order = [q for q in ops] + (["p"] if reach == "lookup" else [])
    arrs = {q: given[q] for q in order}
    info = dict(combine=combo, fold=style, sizes=(n, m, K), stored=at, reach=reach, comprehension=flat, inferred=infer, mode=mode)

    def program(*xs):
        x = dict(zip(order, xs))

        def term(i, j, k):
            kk = k
            if reach == "reversed":
                kk = (K - 1) - k
            elif reach == "lookup":
                kk = x["p"][k]
            elif reach == "clipped":
                kk = (k + 1).min(K - 1)
            vals = []
            for q in ops:
                if q == "a":
                    vals.append(x["a"][i, kk] if at[0] else x["a"][kk, i])
                elif q == "b":
                    vals.append(x["b"][j, k] if at[1] else x["b"][k, j])
                elif q == "w":
                    vals.append(x["w"][k])
                else:
                    vals.append(x["c"][i, j])
            return f(Ein, *vals)

        cnt = None if infer else K
        two = "b" in ops
        el = lambda i, j: folded(style, lambda k: term(i, j, k), cnt)
        if not two:
            return ein.array(lambda i: el(i, None), size=n)
        if flat == "two":
            return ein.array(el, size=(n, m))
        if flat == "swapped":
            return ein.array(lambda j, i: el(i, j), size=(m, n))
        if flat == "nested":
            return ein.array(lambda i: ein.array(lambda j: el(i, j), size=m), size=n)
        d = ein.array(el, size=(n, m))
        return ein.array(lambda i, j: d[i, j] + d[i, j] if style not in ("argmin", "count") else d[i, j], size=(n, m))

    pick = numpy.arange(K)
    if reach == "reversed":
        pick = pick[::-1]
    elif reach == "lookup":
        pick = perm
    elif reach == "clipped":
        pick = numpy.minimum(pick + 1, K - 1)
    ins = sum(a.nbytes for a in arrs.values())
    names_ = list(arrs)
    with c.observing():
        try:
            if mode == "wrap":
                call = lambda: program(*(ein.wrap(arrs[q]) for q in names_)).eval(backend="numpy")
            elif mode == "vars":
                vs, expr = ein.with_varargs([run.ein_type(run.nd_type(arrs[q])) for q in names_], program)
                call = lambda: ein.interpret_with_numpy(expr, {v: arrs[q] for v, q in zip(vs, names_)})
            else:
                g = ein.function(program)
                g.numpy(*arrs.values())
                call = lambda: g.numpy(*arrs.values())
            gc.collect()
            tracemalloc.start()
            try:
                before = tracemalloc.get_traced_memory()[0]
                res = call()
                peak = tracemalloc.get_traced_memory()[1] - before
            finally:
                tracemalloc.stop()
        except TimeoutError:
            raise
        except Exception as e:
            c.violation(f"numpy/{mode}: {combo} in {style}: {type(e).__name__}: {str(e)[:200]}", info)
            return
    c.event("evaluations")
    res = numpy.asarray(res)
    outs = n * (m if "b" in ops else 1)
    whole = outs * K * 8
    bound = FACTOR * (ins + outs * 8) + SLACK
    if "b" in ops and bound * 2 > whole:
        raise Skip("sizes do not tell")
    c.event("peak bytes", int(peak))
    c.event("bytes of all iterations", whole)
    if peak > bound:
        c.violation(f"numpy/{mode}: {combo} in {style} of sizes {(n, m, K)}: a peak of {peak} bytes, inputs and result have {ins + outs * 8}, "
                    f"all iterations {whole}", dict(info, peak=int(peak), bound=bound))
        return
    # the values, at some places
    if "b" in ops and flat == "swapped":
        res = res.T
    for _ in range(6):
        i, j = r.randrange(n), r.randrange(m)
        t = f(Num, *(dict(a=A[i][pick], b=B[j], w=W, c=C[i, j])[q] for q in ops))
        want = final(style, numpy.broadcast_to(t, (K,)).astype(float))
        got = res[i, j] if "b" in ops else res[i]
        if "b" in ops and flat == "let" and style not in ("argmin", "count"):
            want = want + want
        if not abs(got - want) <= 1e-8 * (1 + abs(want) + K):
            c.violation(f"numpy/{mode}: {combo} in {style}: element {(i, j)} is {got}, expected {want}", info)
            return
    c.event(f"fold {style}")
    c.seen(combo, style, (n, m, K), at, reach, flat, infer, mode)
    c.sample(dict(info, peak=int(peak), bound=bound, all_iterations=whole))


# kernels: elements at positions computed from the counter and an index of the result
KERNELS = {
    "plain": lambda E, u, w, v: u,
    "weighted": lambda E, u, w, v: u * w,
    "weighted last": lambda E, u, w, v: w * u,
    "difference": lambda E, u, w, v: E.abs(u - w),
    "smaller": lambda E, u, w, v: E.min(u, w),
    "own": lambda E, u, w, v: u * v,
    "own and weighted": lambda E, u, w, v: (u - v) * w,
    "sine": lambda E, u, w, v: E.sin(u),
    "chosen": lambda E, u, w, v: E.where(w > 0.0, u, -u),
}
# position of the element: (of Ein or NumPy) counter k, index i, K iterations, n results, length L
PLACES = {
    "rotated": (lambda k, i, K, n, L: (k + i) % L, lambda K, n: K),
    "rotated back": (lambda k, i, K, n, L: (i - k + L) % L, lambda K, n: max(K, n)),
    "sliding": (lambda k, i, K, n, L: k + i, lambda K, n: K + n),
    "sliding back": (lambda k, i, K, n, L: i - k + (K - 1), lambda K, n: K + n),
    "strided": (lambda k, i, K, n, L: i * 2 + k, lambda K, n: 2 * n + K),
    "dilated": (lambda k, i, K, n, L: i + k * 3, lambda K, n: n + 3 * K),
    "multiplied": (lambda k, i, K, n, L: (i * k) % L, lambda K, n: K),
}


def kernels(c):
    """convolutions and the like: u[i + k] would have an element for every pair of result and iteration"""
    import ein

    run.namespace()
    r = c.rng("kernels")
    names, places = sorted(KERNELS), sorted(PLACES)
    combo = names[c.index % len(names)]
    place = places[(c.index // len(names) + c.index) % len(places)]
    f, (at, length) = KERNELS[combo], PLACES[place]
    style = r.choice([s for s in FOLDS if s not in ("double",)])
    n, K = r.choice([(1800, 900), (1200, 1200), (4000, 400)])
    L = length(K, n)
    rng = numpy.random.default_rng(r.randrange(2**32))
    rows = r.random() < 0.3
    U, W, Y = rng.normal(size=(2, L) if rows else L), rng.normal(size=K), rng.normal(size=n)
    arrs = [U, W, Y]
    mode = r.choice(["wrap", "function", "vars"])
    if place in ("rotated", "multiplied") and combo in ("plain", "sine", "own") and r.random() < 0.5:
        count = "size"
    else:
        count = "given"
    info = dict(kernel=combo, place=place, fold=style, sizes=(n, K, L), rows=rows, mode=mode, count=count)

    def program(u, w, y):
        def el(i):
            def term(k):
                x = at(k, i, K, n, L)
                return f(Ein, u[1, x] if rows else u[x], w[k], y[i])

            return folded(style, term, K if count == "given" else u.size(1 if rows else 0))

        return ein.array(el, size=n)

    with c.observing():
        try:
            if mode == "wrap":
                call = lambda: program(*(ein.wrap(a) for a in arrs)).eval(backend="numpy")
            elif mode == "vars":
                vs, expr = ein.with_varargs([run.ein_type(run.nd_type(a)) for a in arrs], program)
                call = lambda: ein.interpret_with_numpy(expr, dict(zip(vs, arrs)))
            else:
                g = ein.function(program)
                call = lambda: g.numpy(*arrs)
            gc.collect()
            tracemalloc.start()
            try:
                before = tracemalloc.get_traced_memory()[0]
                res = call()
                peak = tracemalloc.get_traced_memory()[1] - before
            finally:
                tracemalloc.stop()
        except TimeoutError:
            raise
        except Exception as e:
            c.violation(f"numpy/{mode}: kernel {combo} {place} in {style}: {type(e).__name__}: {str(e)[:200]}", info)
            return
    c.event("evaluations")
    res = numpy.asarray(res)
    whole = n * K * 8
    ins = sum(a.nbytes for a in arrs)
    bound = FACTOR * (ins + n * 8) + SLACK
    assert bound * 2 < whole, (bound, whole)
    c.event("peak bytes", int(peak))
    c.event("bytes of all iterations", whole)
    if peak > bound:
        c.violation(f"numpy/{mode}: kernel {combo} {place} in {style} of sizes {(n, K)}: a peak of {peak} bytes, inputs and result have {ins + n * 8}, "
                    f"all iterations {whole}", dict(info, peak=int(peak), bound=bound))
        return
    ks = numpy.arange(K)
    for _ in range(6):
        i = r.randrange(n)
        x = at(ks, i, K, n, L)
        t = f(Num, (U[1] if rows else U)[x], W, Y[i])
        want = final(style, numpy.broadcast_to(t, (K,)).astype(float))
        if not abs(res[i] - want) <= 1e-8 * (1 + abs(want) + K):
            c.violation(f"numpy/{mode}: kernel {combo} {place} in {style}: element {i} is {res[i]}, expected {want}", info)
            return
    c.event(f"kernel {place}")
    c.seen("kernel", combo, style, (n, K), place, rows, mode, count)
    c.sample(dict(info, peak=int(peak), bound=bound, all_iterations=whole))

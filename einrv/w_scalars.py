"""Scalar operators on special and ordinary operands, against Python and IEEE arithmetic (C15)."""
from __future__ import annotations

import math

import numpy

from . import run
from .ctx import Skip

INF, NAN = math.inf, math.nan
MAX = 1.7976931348623157e308
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 3.0, -7.0, 1e-8, 1e8, -1e15, 2.0**53, 1e150, -1e150, 1e308, MAX, -MAX, 1e-300, INF, -INF, NAN,
          math.pi, -math.pi / 2, 20.0, -20.0, 0.1, 1 / 3, 700.0, -700.0, 1e-16]
INTS = [0, 1, -1, 2, -2, 3, 7, -7, 10, -13, 255, 2**31 - 1, 2**31, -(2**31), 2**32 + 1, 2**53 + 1, -(2**53) - 1, 2**62, -(2**62), 2**63 - 1, -(2**63) + 1]
BOOLS = [True, False]


def fdiv(x, y):
    with numpy.errstate(all="ignore"):
        return float(numpy.float64(x) / numpy.float64(y))


def fpow(x, y):
    """IEEE 754 pow"""
    try:
        return math.pow(x, y)
    except OverflowError:
        odd = y == math.floor(y) and y % 2 == 1
        return -INF if x < 0 and odd else INF
    except ValueError:
        if x == 0:  # a zero to a negative power
            odd = math.isfinite(y) and y == math.floor(y) and y % 2 == 1
            return math.copysign(INF, x) if odd else INF
        return NAN


def fexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def trig(f):
    return lambda x: NAN if not math.isfinite(x) else f(x)


def mn(x, y):
    if x != x or y != y:
        return NAN
    return x if x <= y else y


def mx(x, y):
    if x != x or y != y:
        return NAN
    return x if x >= y else y


def ipow(k):
    def f(x):
        if isinstance(x, int):
            return x**k if k >= 0 else fpow(float(x), float(k))
        if k >= 0:
            r = 1.0
            for _ in range(k):
                r *= x
            return r
        return fpow(x, float(k))

    return f


class Op:
    """how: a function of Ein scalars (and of Python constants); ref: of Python scalars"""

    def __init__(self, name, sig, res, how, ref, rel=0.0, ab=0.0, sign=True, ok=None, refl=False, big=INF):
        self.name, self.sig, self.res, self.how, self.ref = name, sig, res, how, ref
        self.rel, self.ab, self.sign, self.ok, self.refl, self.big = rel, ab, sign, ok, refl, big


def fits(*ns):
    return all(-(2**63) < n < 2**63 for n in ns if isinstance(n, int))


def _std():
    from ein.frontend import std

    return std


def _where(c, a, b):
    import ein

    return ein.where(c, a, b)


def table():
    out = []

    def op(*a, **k):
        out.append(Op(*a, **k))

    for s in "if":
        z = lambda *a: fits(*a)
        op(f"add {s}", s + s, s, lambda x, y: x + y, lambda x, y: x + y, refl=True)
        op(f"sub {s}", s + s, s, lambda x, y: x - y, lambda x, y: x - y, refl=True)
        op(f"mul {s}", s + s, s, lambda x, y: x * y, lambda x, y: x * y, refl=True)
        op(f"neg {s}", s, s, lambda x: -x, lambda x: -x)
        op(f"abs {s}", s, s, lambda x: abs(x), abs)
        op(f"abs() {s}", s, s, lambda x: x.abs(), abs)
        op(f"min {s}", s + s, s, lambda x, y: x.min(y), mn, sign=False)
        op(f"max {s}", s + s, s, lambda x, y: x.max(y), mx, sign=False)
        op(f"std min {s}", s + s, s, lambda x, y: _std().min(x, y), mn, sign=False)
        op(f"std max {s}", s + s, s, lambda x, y: _std().max(x, y), mx, sign=False)
        op(f"lt {s}", s + s, "b", lambda x, y: x < y, lambda x, y: x < y, refl=True)
        op(f"le {s}", s + s, "b", lambda x, y: x <= y, lambda x, y: x <= y, refl=True)
        op(f"gt {s}", s + s, "b", lambda x, y: x > y, lambda x, y: x > y, refl=True)
        op(f"ge {s}", s + s, "b", lambda x, y: x >= y, lambda x, y: x >= y, refl=True)
        op(f"eq {s}", s + s, "b", lambda x, y: x == y, lambda x, y: x == y, refl=True)
        op(f"ne {s}", s + s, "b", lambda x, y: x != y, lambda x, y: x != y, refl=True)
        op(f"where {s}", "b" + s + s, s, lambda c, x, y: c.where(x, y), lambda c, x, y: x if c else y)
        op(f"where() {s}", "b" + s + s, s, lambda c, x, y: _where(c, x, y), lambda c, x, y: x if c else y)
        op(f"where cmp {s}", s + s, s, lambda x, y: _where(x < y, x, y), lambda x, y: x if x < y else y)
        op(f"clamp {s}", s + s + s, s, lambda x, a, b: x.max(a).min(b), lambda x, a, b: mn(mx(x, a), b), sign=False)
        for k in (0, 1, 2, 3, 4, 5, 7, 8, 11, 16, 31):
            op(f"pow {k} {s}", s, s, (lambda k: lambda x: x**k)(k), ipow(k), rel=1e-13 if s == "f" else 0, ab=1e-300 if s == "f" and k > 1 else 0, sign=k in (1, 3, 5, 7))
    tiny = lambda x: not (x == x) or x == 0 or 1e-290 < abs(x) < 1e290 or math.isinf(x)
    for k in (-1, -2, -3, -5):
        op(f"pow {k} f", "f", "f", (lambda k: lambda x: x**k)(k), ipow(k), rel=1e-13, sign=False, ok=lambda x: tiny(x), ab=1e-300)
    op("mod", "ii", "i", lambda x, y: x % y, lambda x, y: x % y, ok=lambda x, y: y != 0)
    op("div", "ff", "f", lambda x, y: x / y, fdiv, rel=1e-15, ok=lambda x, y: tiny(y), refl=True, ab=1e-300)
    op("reciprocal", "f", "f", lambda x: 1.0 / x, lambda x: fdiv(1.0, x), rel=1e-15, ok=lambda x: tiny(x), ab=1e-300)
    op("pow f", "ff", "f", lambda x, y: x**y, fpow, rel=1e-12, ab=1e-300, sign=False)
    for y in (0.5, -0.5, 2.0, -1.0, 1 / 3, 0.0, 1.5):
        op(f"pow {y:.3g} f", "f", "f", (lambda y: lambda x: x**y)(y), (lambda y: lambda x: fpow(x, y))(y), rel=1e-12, ab=1e-300, sign=False)
    op("exp", "f", "f", lambda x: x.exp(), fexp, rel=1e-12, ab=1e-300, sign=False)
    op("sin", "f", "f", lambda x: x.sin(), trig(math.sin), ab=1e-11, sign=False, big=1e15)
    op("cos", "f", "f", lambda x: x.cos(), trig(math.cos), ab=1e-11, sign=False, big=1e15)
    op("tanh", "f", "f", lambda x: x.tanh(), math.tanh, ab=1e-12, sign=False)
    op("float", "i", "f", lambda x: x.float(), float)
    op("not", "b", "b", lambda x: ~x, lambda x: not x)
    op("and", "bb", "b", lambda x, y: x & y, lambda x, y: x and y)
    op("or", "bb", "b", lambda x, y: x | y, lambda x, y: x or y)
    op("where b", "bbb", "b", lambda c, x, y: c.where(x, y), lambda c, x, y: x if c else y)
    return out


OPS = table()


def scalar(r, k, special=0.7):
    if k == "b":
        return r.random() < 0.5
    if k == "i":
        return r.choice(INTS) if r.random() < special else r.randint(-(10 ** r.choice([1, 2, 5])), 10 ** r.choice([1, 2, 5]))
    return r.choice(FLOATS) if r.random() < special else round(r.uniform(-1, 1) * 10.0 ** r.choice([-3, 0, 0, 1, 2]), 6)


def judge(o, x, want):
    """whether an observed scalar is right"""
    if isinstance(want, bool) or isinstance(want, int):
        return x == want and isinstance(x, bool) == isinstance(want, bool)
    if want != want:
        return x != x
    if x != x:
        return False
    if math.isinf(want) or math.isinf(x):
        if x == want:
            return True
        # next to the largest number
        return o.rel > 0 and min(abs(x), abs(want)) > 1.79e308 * (1 - 1e-9) and x * want > 0
    if 0 < abs(want) < 2.2250738585072014e-308 and x == 0:  # may be flushed to zero
        return True
    if want == 0 and x == 0:
        return not o.sign or math.copysign(1, x) == math.copysign(1, want)
    return abs(x - want) <= max(o.rel * abs(want), o.ab)


def operands(o, r, n):
    """n tuples on which the operator's result is defined"""
    out = []
    for _ in range(60 * n):
        xs = [scalar(r, k) for k in o.sig]
        if len(xs) > 1 and o.sig[-1] == o.sig[-2] != "b" and r.random() < 0.2:  # equal, or of opposite signs
            xs[-1] = xs[-2] if r.random() < 0.7 else -xs[-2]
        if any(abs(x) > o.big and math.isfinite(x) for x in xs if isinstance(x, float)):
            continue
        if o.ok is not None and not o.ok(*xs):
            continue
        v = o.ref(*xs)
        if isinstance(v, int) and not isinstance(v, bool) and not fits(v):
            continue
        if "pow" in o.name and o.res == "i" and not fits(v * 2):
            continue
        out.append((xs, v))
        if len(out) == n:
            break
    return out


NPT = {"i": numpy.int64, "f": numpy.float64, "b": numpy.bool_}
PYT = {"i": int, "f": float, "b": bool}
FORMS = ("vectors", "vectors", "matrix", "scalars", "left", "right", "wrapped", "folded", "twice", "np_const", "varargs")


def ops(c, backends, forms=FORMS, n=24):
    """one operator in one form on a batch of operands"""
    import ein
    from ein import array, fold, wrap

    run.namespace()
    r = c.rng("ops")
    o = OPS[c.index % len(OPS)]
    form = forms[(c.index // len(OPS)) % len(forms)] if c.index < len(OPS) * len(forms) else r.choice(forms)
    be = backends[c.index % len(backends)] if len(backends) > 1 else backends[0]
    together = form in ("left", "right") and r.random() < 0.7
    if form in ("scalars", "left", "right", "np_const"):
        n = 4 if not together else 14
    if form in ("left", "right", "np_const") and len(o.sig) != 2:
        form = "vectors"
    if form == "left" and not o.refl:
        form = "right"
    data = operands(o, r, n)
    if not data:
        raise Skip("no operands")
    cols = [numpy.array([xs[q] for xs, _ in data], dtype=NPT[k]) for q, k in enumerate(o.sig)]
    want = [v for _, v in data]
    info = dict(op=o.name, form=form, backend=be, operands=[repr(xs) for xs, _ in data])
    m = len(data)

    def ev(f, args):
        return run.as_np(run.execute(f, {f"x{q}": a for q, a in enumerate(args)}, {f"x{q}": run.nd_type(a) for q, a in enumerate(args)}, be,
                                     r.choice(["vars", "wrap"] + (["function"] if be != "naive" else []))))

    with c.observing():
        try:
            if form == "vectors":
                got = ev(lambda *vs: array(lambda i: o.how(*(v[i] for v in vs)), **({'size': m} if o.name.startswith('pow 0') else {})), cols).tolist()
            elif form == "varargs":
                got = ev(lambda *vs: array(lambda i: o.how(*(v[i] for v in vs)), size=m), cols).tolist()
            elif form == "matrix":
                if m % 2:
                    m -= 1
                    cols, want = [a[:m] for a in cols], want[:m]
                got = ev(lambda *vs: array(lambda i, j: o.how(*(v[j, i] for v in vs)), **({'size': (m // 2, 2)} if o.name.startswith('pow 0') else {})), [a.reshape(2, m // 2) for a in cols]).T.reshape(-1).tolist()
            elif form == "scalars":
                got = [ev(lambda *vs: o.how(*vs), [numpy.array(a[q]) for a in cols]).tolist() for q in range(m)]
            elif form in ("left", "right") and together:
                # one program, with a constant for every element
                def chosen(v, i):
                    e = wrap({"i": 0, "f": 0.0, "b": False}[o.res])
                    for q, (xs, _) in enumerate(data):
                        e = _where(i == q, o.how(xs[0], v[i]) if form == "left" else o.how(v[i], xs[1]), e)
                    return e

                got = ev(lambda v: array(lambda i: chosen(v, i), size=m), [cols[1 if form == "left" else 0]]).tolist()
            elif form in ("left", "right"):
                got = []
                for xs, _ in data:
                    if form == "left":
                        g = ev(lambda v: array(lambda i: o.how(xs[0], v[i]), size=1), [numpy.array([xs[1]], dtype=NPT[o.sig[1]])])
                    else:
                        g = ev(lambda v: array(lambda i: o.how(v[i], xs[1]), size=1), [numpy.array([xs[0]], dtype=NPT[o.sig[0]])])
                    got.append(g.tolist()[0])
            elif form == "np_const":
                got = [ev(lambda v: o.how(v, wrap(numpy.array(xs[1], dtype=NPT[o.sig[1]]))), [numpy.array(xs[0], dtype=NPT[o.sig[0]])]).tolist() for xs, _ in data]
            elif form == "wrapped":
                got = run.as_np(array(lambda i: o.how(*(wrap(a)[i] for a in cols)), size=m).eval(backend=be)).tolist()
            elif form == "folded":
                # the last step's result
                z = {"i": 0, "f": 0.0, "b": False}[o.res]
                got = ev(lambda *vs: array(lambda i: fold(wrap(z), lambda k, a: o.how(*(v[i] for v in vs)), 2), size=m), cols).tolist()
            elif form == "twice":
                # the same value in two roles
                got = ev(lambda *vs: array(lambda i: (lambda e: _where(i >= 0, e, e))(o.how(*(v[i] for v in vs))), size=m), cols).tolist()
        except Exception as e:
            c.violation(f"{o.name} as {form} on {be}: {type(e).__name__}: {str(e)[:300]}", info)
            return
    if len(got) != len(want):
        c.violation(f"{o.name} as {form} on {be}: {len(got)} results for {len(want)} operands", info)
        return
    for q, (g, w) in enumerate(zip(got, want)):
        c.event("evaluations")
        if not judge(o, g, w):
            c.violation(f"{o.name} as {form} on {be}: {data[q][0]!r} gave {g!r}, expected {w!r}", info)
            return
        if isinstance(w, float) and (not math.isfinite(w) or w == 0):
            c.event("special results")
    c.event(f"form {form}")
    c.seen(o.name, form, be, [repr(xs) for xs, _ in data][:4])
    c.sample(info)


# ---------------------------------------------------------------- expressions of exact operators
EXACT = [o for o in OPS if o.rel == 0 and o.ab == 0 and not o.name.startswith("pow")]


def tree(r, k, d, leaves):
    if d == 0 or r.random() < 0.12:
        ls = [l for l in leaves if l[1] == k]
        if ls and r.random() < 0.85:
            return ls[r.randrange(len(ls))]
        return ("const", k, scalar(r, k))
    o = r.choice([o for o in EXACT if o.res == k])
    n = ("op", k, o, tuple(tree(r, s, d - 1, leaves) for s in o.sig))
    if r.random() < 0.3:
        leaves.append(n)  # shared later on
    return n


def value(t, env):
    """None where it is not defined (integers out of range, modulo by zero); second part: a zero of unsure sign met a division... never here"""
    if t[0] == "const":
        return t[2]
    if t[0] == "var":
        return env[t[2]]
    xs = [value(a, env) for a in t[3]]
    if any(x is None for x in xs) or (t[2].ok is not None and not t[2].ok(*xs)):
        return None
    v = t[2].ref(*xs)
    if isinstance(v, float) and 0 < abs(v) < 2.2250738585072014e-308:
        return None
    return None if isinstance(v, int) and not fits(v) else v


def build(t, env, memo):
    from ein import wrap

    if t[0] == "const":
        return wrap(t[2])
    if t[0] == "var":
        return env[t[2]]
    if id(t) not in memo:
        memo[id(t)] = t[2].how(*(build(a, env, memo) for a in t[3]))
    return memo[id(t)]


class _Loose:
    rel = ab = 0.0
    sign = False


def show(t):
    return repr(t[2]) if t[0] == "const" else f"x{t[2]}" if t[0] == "var" else f"{t[2].name}({', '.join(map(show, t[3]))})"


def trees(c, backends, n=16):
    """expressions of exact operators: equal to the bit (up to the sign of zeros), non-finite operands included"""
    import ein
    from ein import array

    run.namespace()
    r = c.rng("trees")
    be = r.choice(backends)
    kinds = [r.choice("iffb") for _ in range(r.choice([1, 2, 3, 4]))]
    leaves = [("var", k, q) for q, k in enumerate(kinds)]
    t = tree(r, r.choice("ifffb"), r.choice([2, 3, 4, 5]), leaves)
    if t[0] != "op":
        raise Skip("no operator")
    rows = []
    for _ in range(n * 4):
        xs = [scalar(r, k) for k in kinds]
        v = value(t, xs)
        if v is not None:
            rows.append((xs, v))
    rows = rows[:n]
    if not rows:
        raise Skip("undefined everywhere")
    cols = [numpy.array([xs[q] for xs, _ in rows], dtype=NPT[k]) for q, k in enumerate(kinds)]
    info = dict(expr=show(t)[:2000], backend=be, operands=[repr(xs) for xs, _ in rows])
    form = r.choice(["array", "array", "scalar", "fold"])
    modes = ["vars", "wrap"] + (["function"] if be != "naive" else [])

    def f(*vs):
        if form == "scalar":
            return build(t, vs, {})
        if form == "fold":
            z = {"i": 0, "f": 0.0, "b": False}[t[1]]
            return array(lambda i: ein.fold(ein.wrap(z), lambda k, a: build(t, [v[i] for v in vs], {}), 1), size=len(rows))
        return array(lambda i: build(t, [v[i] for v in vs], {}), size=len(rows))

    with c.observing():
        try:
            if form == "scalar":
                rows = rows[:4]
                got = [run.as_np(run.execute(f, {f"x{q}": numpy.array(x, dtype=NPT[k]) for q, (x, k) in enumerate(zip(xs, kinds))},
                                             {f"x{q}": k for q, k in enumerate(kinds)}, be, r.choice(modes))).tolist() for xs, _ in rows]
            else:
                got = run.as_np(run.execute(f, {f"x{q}": a for q, a in enumerate(cols)}, {f"x{q}": run.nd_type(a) for q, a in enumerate(cols)}, be, r.choice(modes))).tolist()
        except Exception as e:
            c.violation(f"{show(t)[:300]} on {be}: {type(e).__name__}: {str(e)[:300]}", info)
            return
    for (xs, w), g in zip(rows, got):
        c.event("evaluations")
        if not judge(_Loose, g, w):
            c.violation(f"{show(t)[:600]} as {form} on {be}: {xs!r} gave {g!r}, expected {w!r}", info)
            return
    c.seen(show(t), be, form)
    c.sample(dict(expr=show(t)[:300], backend=be))

"""Programs a user would write, each over Ein's surface given as `E` (Ein itself, or the shadow).

@idiom(spec): inputs separated by ';': kind and dims, e.g. "f n k; f k m; i m".
kinds: f small whole floats, g floats, p positive floats, u floats in [0,1], i ints, b bools,
       c  small counts; j:n  indices into an axis of length n.
"""
from __future__ import annotations

import math
from dataclasses import dataclass

IDIOMS = {}


class Idiom:
    def __init__(self, fun, spec, exact, jax, kind, smooth):
        self.fun, self.name, self.exact, self.jax, self.kind, self.smooth = fun, fun.__name__, exact, jax, kind, smooth
        self.spec = [p.split() for p in spec.split(";")]


def idiom(spec, exact=True, jax=True, kind="f", smooth=False):
    def deco(fun):
        IDIOMS[fun.__name__] = Idiom(fun, spec, exact, jax, kind, smooth)
        return fun

    return deco


@dataclass(frozen=True)
class Cx:
    re: object
    im: object

    def __add__(self, o):
        return Cx(self.re + o.re, self.im + o.im)

    def __mul__(self, o):
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)


@dataclass(frozen=True)
class Dual:
    v: object
    d: object

    def __add__(self, o):
        return Dual(self.v + o.v, self.d + o.d)

    def __mul__(self, o):
        return Dual(self.v * o.v, self.v * o.d + self.d * o.v)


@dataclass(frozen=True)
class Affine:
    a: object
    b: object


@dataclass(frozen=True)
class State:
    lo: object
    hi: object
    best: object


# ------------------------------------------------------------------ linear algebra
@idiom("f n k; f k m", smooth=True)
def matmul(E, A, B):
    return E.array(lambda i, j: E.fold_sum(lambda k: A[i, k] * B[k, j]))


@idiom("f n k; f k m", smooth=True)
def matmul_reduce(E, A, B):
    return E.array(lambda i, j: E.reduce_sum(lambda k: A[i, k] * B[k, j]))


@idiom("f n k; f k m; f m l", smooth=True)
def matmul3(E, A, B, C):
    return E.array(lambda i, j: E.fold_sum(lambda k: A[i, k] * E.fold_sum(lambda l: B[k, l] * C[l, j])))


@idiom("f b n k; f b k m", smooth=True)
def batched_matmul(E, A, B):
    return E.array(lambda b, i, j: E.fold_sum(lambda k: A[b, i, k] * B[b, k, j]))


@idiom("f n m; f m", smooth=True)
def matvec_then_scale(E, A, x):
    y = E.array(lambda i: E.fold_sum(lambda j: A[i, j] * x[j]))
    return E.array(lambda i: 2.0 * y[i] - y[0])


@idiom("f n; f m", smooth=True)
def outer(E, a, b):
    return E.array(lambda i, j: a[i] * b[j] + a[i])


@idiom("f n n", smooth=True)
def trace(E, A):
    return E.fold_sum(lambda i: A[i, i])


@idiom("f n n", smooth=True)
def diag_times_transpose(E, A):
    d = E.array(lambda i: A[i, i])
    return E.array(lambda i, j: A[j, i] * d[i] - d[j])


@idiom("f n m; f n m", smooth=True)
def frobenius(E, A, B):
    return E.fold_sum(lambda i: E.fold_sum(lambda j: A[i, j] * B[i, j]))


@idiom("f n m; f n m", smooth=True)
def row_dots(E, A, B):
    return E.array(lambda i: E.fold_sum(lambda j: (A[i, j] - B[i, j]) * (A[i, j] - B[i, j])))


@idiom("f n k; f m k", smooth=True)
def pairwise_sq(E, A, B):
    return E.array(lambda i, j: E.fold_sum(lambda k: (A[i, k] - B[j, k]) ** 2))


@idiom("f n k; f k m")
def min_plus(E, A, B):
    return E.array(lambda i, j: E.fold_min(lambda k: A[i, k] + B[k, j]))


@idiom("f n k; f k m")
def max_plus_reduce(E, A, B):
    return E.array(lambda i, j: E.reduce_max(lambda k: A[i, k] + B[k, j]))


@idiom("b n k; b k m", kind="b")
def bool_matmul(E, A, B):
    return E.array(lambda i, j: E.fold(False, lambda k, acc: acc | (A[i, k] & B[k, j])))


@idiom("i n n; c", kind="i")
def matrix_power(E, A, t):
    eye = E.array(lambda i, j: E.where(i == j, 1, 0), size=(A.size(0), A.size(0)))
    return E.fold(
        eye,
        lambda _, M: E.array(lambda i, j: E.fold(0, lambda k, s: (s + M[i, k] * A[k, j]) % 1009)),
        count=t,
    )


@idiom("f n n")
def floyd_warshall(E, D):
    return E.fold(D, lambda k, d: E.array(lambda i, j: d[i, j].min(d[i, k] + d[k, j])), count=D.size(0))


@idiom("f n n; f n", smooth=True)
def power_iteration(E, A, x):
    return E.fold(x, lambda _, v: E.array(lambda i: 0.5 * E.fold_sum(lambda j: A[i, j] * v[j])), count=3)


@idiom("g n n; g n", exact=False)
def jacobi(E, A, b):
    def step(_, x):
        return E.array(lambda i: (b[i] - E.fold_sum(lambda j: E.where(i == j, 0.0, A[i, j] * x[j]))) / (10.0 + A[i, i]))

    return E.fold(E.array(lambda i: 0.0 * b[i]), step, count=4)


@idiom("f n m", smooth=True)
def center_columns(E, A):
    s = E.array(lambda j: E.fold_sum(lambda i: A[i, j]))
    return E.array(lambda i, j: A[i, j] * A.size(0).float() - s[j])


@idiom("f n m; f n m; f m", smooth=True)
def sum_of_products(E, A, B, c):
    return E.array(lambda i: E.fold_sum(lambda j: A[i, j] * c[j] + B[i, j] * c[j] - A[i, j]))


@idiom("f n k; f k; f k", smooth=True)
def trilinear(E, A, b, c):
    return E.array(lambda i: E.fold_sum(lambda j: E.fold_sum(lambda k: A[i, j] * b[j] * c[k] * A[i, k])))


# ------------------------------------------------------------------ statistics, deep learning
@idiom("g n m", exact=False, smooth=True)
def softmax(E, x):
    e = E.array(lambda i, j: x[i, j].exp())
    z = E.array(lambda i: E.fold_sum(lambda j: e[i, j]))
    return E.array(lambda i, j: e[i, j] / z[i])


@idiom("g n m", exact=False)
def stable_softmax(E, x):
    top = E.array(lambda i: E.fold_max(lambda j: x[i, j]))
    e = E.array(lambda i, j: (x[i, j] - top[i]).exp())
    return E.array(lambda i, j: e[i, j] / E.fold_sum(lambda k: e[i, k]))


@idiom("g n d; g m d; g m e", exact=False, smooth=True)
def attention(E, Q, K, V):
    s = E.array(lambda i, j: (0.1 * E.fold_sum(lambda k: Q[i, k] * K[j, k])).exp())
    return E.array(lambda i, j: E.fold_sum(lambda t: s[i, t] * V[t, j]) / (1.0 + E.fold_sum(lambda t: s[i, t])))


@idiom("g n m; g m k; g k", exact=False, smooth=True)
def mlp_layer(E, x, W, b):
    return E.array(lambda i, j: (E.fold_sum(lambda t: x[i, t] * W[t, j]) + b[j]).tanh())


@idiom("g n", exact=False, smooth=True)
def variance(E, x):
    n = x.size().float() + 1.0
    m = E.fold_sum(lambda i: x[i]) / n
    return E.fold_sum(lambda i: (x[i] - m) ** 2) / n


@idiom("g n", exact=False, smooth=True)
def logsumexpish(E, x):
    return E.array(lambda i: x[i].exp() / (1.0 + E.fold_sum(lambda k: x[k].exp())))


@idiom("f n d; f k d", kind="i")
def kmeans_assign(E, pts, cs):
    return E.array(lambda i: E.fold_argmin(lambda c: E.fold_sum(lambda j: (pts[i, j] - cs[c, j]) ** 2)))


@idiom("f n d; j:k n; f k d")
def kmeans_update(E, pts, lab, cs):
    return E.array(lambda c, j: E.fold_sum(lambda i: E.where(lab[i] == c, pts[i, j] - cs[c, j], 0.0)))


@idiom("f n; f n", kind="i")
def argmin_pair(E, x, y):
    return E.reduce_argmin(lambda i: x[i] * x[i] + y[i])


# ------------------------------------------------------------------ stencils, images, indexing
@idiom("f n; f k", smooth=True)
def conv_valid(E, x, w):
    return E.array(lambda i: E.fold_sum(lambda k: x[i + k] * w[k]), size=(x.size() - w.size() + 1))


@idiom("f n; f k", smooth=True)
def conv_same(E, x, w):
    return E.array(lambda i: E.fold_sum(lambda k: x[i + k - 1] * w[k]).assume(x[i]))


@idiom("f n m; f p q", smooth=True)
def conv2d(E, x, w):
    return E.array(
        lambda i, j: E.fold_sum(lambda a: E.fold_sum(lambda b: x[i + a, j + b] * w[a, b])),
        size=(x.size(0), x.size(1)),
    )


@idiom("f n m", smooth=True)
def hotspot(E, x):
    return E.array(lambda i, j: x[i - 1, j] + x[i + 1, j] + x[i, j - 1] + x[i, j + 1] - 4.0 * x[i, j])


@idiom("f n m; c", smooth=True)
def diffuse(E, x, t):
    return E.fold(x, lambda _, u: E.array(lambda i, j: 0.5 * (u[i - 1, j] + u[i, (j + 1).min(u.size(1) - 1)]) + u[i, j]), count=t)


@idiom("b n m", kind="b")
def game_of_life(E, b):
    def at(i, j):
        return E.where(b[(i + b.size(0)) % b.size(0).max(1), (j + b.size(1)) % b.size(1).max(1)], 1, 0)

    def cell(i, j):
        s = at(i - 1, j - 1) + at(i - 1, j) + at(i - 1, j + 1) + at(i, j - 1) + at(i, j + 1)
        s = s + at(i + 1, j - 1) + at(i + 1, j) + at(i + 1, j + 1)
        return (s == 3) | (b[i, j] & (s == 2))

    return E.array(cell)


@idiom("f n")
def reverse(E, x):
    return E.array(lambda i: x[x.size() - 1 - i].assume(x[i]))


@idiom("f n; c")
def rotate(E, x, k):
    return E.array(lambda i: x[(i + k) % x.size().max(1)].assume(x[i]))


@idiom("f n; c; c")
def shifts(E, x, a, b):
    return E.array(lambda i: x[i + a] - x[i - b] + x[i + a - b] + x[(i - a).max(0)] + x[(i + b).min(x.size() - 1)], size=x.size())


@idiom("f n m; j:n k; j:m k")
def gather_pairs(E, x, p, q):
    return E.array(lambda t: x[p[t], q[t]])


@idiom("f n m; j:n k")
def gather_rows(E, x, p):
    return E.array(lambda t, j: x[p[t], j])


@idiom("f n; i n")
def wild_gather(E, x, p):
    return E.array(lambda t: x[p[t] * 3 - 2] + x[p[p[t]]])


@idiom("j:n k; f n", kind="f")
def histogram(E, idx, w):
    return E.array(lambda b: w[b] * E.fold_sum(lambda t: E.where(idx[t] == b, 1.0, 0.0)))


@idiom("f n m")
def upsample(E, x):
    return E.array(lambda i, j: x[(i - i % 2) * 1, j], size=(x.size(0) * 2, x.size(1)))


@idiom("f n; f m; f n")
def concat_many(E, a, b, c):
    v = E.concat(a, b, c, a)
    return E.array(lambda i: v[i] + v[v.size() - 1 - i])


@idiom("f n m; f k m")
def vstack_rowsum(E, a, b):
    v = a.concat(b)
    return E.array(lambda i: E.fold_sum(lambda j: v[i, j]))


@idiom("f n m; f n k")
def hstack(E, a, b):
    return E.array(lambda i: a[i].concat(b[i]))


@idiom("f n m k")
def slices(E, x):
    y = x[:, 1]
    return E.array(lambda i, j: y[i, j] - x[0, :, j][i])


# ------------------------------------------------------------------ loops
@idiom("f n")
def prefix_sums(E, x):
    return E.array(lambda i: E.fold_sum(lambda j: E.where(j <= i, x[j], 0.0)).assume(x[i]))


@idiom("f n")
def scan_by_fold(E, x):
    def step(k, acc):
        s, out = acc
        t = s + x[k]
        return t, E.array(lambda i: E.where(i == k, t, out[i]))

    return E.fold((0.0, E.array(lambda i: 0.0 * x[i])), step)[1]


@idiom("i n", kind="i")
def bubble_pass(E, x):
    def swap(k, v):
        a, b = v[k].min(v[k + 1]), v[k].max(v[k + 1])
        return E.array(lambda i: E.where(i == k, a, E.where(i == k + 1, b, v[i])))

    return E.fold(x, swap, count=x.size() - 1)


@idiom("i n", kind="i")
def rank_sort(E, x):
    rank = E.array(lambda i: E.fold(0, lambda j, c: c + E.where((x[j] < x[i]) | ((x[j] == x[i]) & (j < i)), 1, 0)))
    pos = E.array(lambda r: E.fold(0, lambda i, p: E.where(rank[i] == r, i, p)), size=x.size())
    return E.array(lambda r: x[pos[r]])


@idiom("c", kind="i")
def fibonacci(E, n):
    return E.fold((0, 1), lambda _, s: (s[1], s[0] + s[1]), count=n)[0]


@idiom("c; i n", kind="i")
def horner(E, t, a):
    return E.fold(0, lambda i, acc: (acc * t + a[i]) % 997)


@idiom("f n m")
def pathfinder(E, w):
    def step(r, d):
        return E.array(lambda j: w[r, j] + d[j].min(d[j - 1]).min(d[j + 1]))

    return E.fold(E.array(lambda j: 0.0 * w[0, j]), step)


@idiom("i n; i m", kind="i")
def lcs(E, a, b):
    def row(i, prev):
        def cell(j, acc):
            left, out = acc
            v = E.where(a[i] == b[j], E.where(j == 0, 0, prev[j - 1]) + 1, prev[j].max(left))
            return v, E.array(lambda t: E.where(t == j, v, out[t]))

        return E.fold((0, E.array(lambda t: 0 * b[t])), cell)[1]

    d = E.fold(E.array(lambda t: 0 * b[t]), row)
    return d.or_empty(b.size() - 1, 0)


@idiom("c; c", kind="i")
def collatz_steps(E, a, b):
    def step(_, s):
        n, k = s
        nxt = E.where(n % 2 == 0, (n - n % 2), 3 * n + 1)
        return E.where(n <= 1, (n, k), (nxt % 37, k + 1))

    return E.fold((a + 3, 0), step, count=b + 4)[1]


@idiom("f n; c")
def newton(E, x, t):
    return E.array(lambda i: E.fold(x[i], lambda k, v: v * 2.0 - x[i] + k.float(), count=t))


@idiom("f n m")
def nested_folds(E, x):
    return E.fold(0.0, lambda i, s: E.fold(s, lambda j, t: 0.5 * t + x[i, j]))


@idiom("f n")
def alternating(E, x):
    return E.fold((0.0, 1.0), lambda i, s: (s[0] + s[1] * x[i], -s[1]))[0]


@idiom("f n")
def running_max_pair(E, x):
    st = E.fold(
        State(lo=math.inf, hi=-math.inf, best=0.0),
        lambda i, s: State(lo=s.lo.min(x[i]), hi=s.hi.max(x[i]), best=s.best.max(x[i] - s.lo.min(x[i]))),
    )
    return st.best


@idiom("f n", jax=False)
def triangular(E, x):
    return E.fold(0.0, lambda k, s: s + E.array(lambda i: x[i], size=k).reduce(0.0, lambda a, b: a + b), count=x.size())


# ------------------------------------------------------------------ records
@idiom("f n; f n")
def complex_product(E, re, im):
    z = E.array(lambda i: Cx(re[i], im[i])).reduce(Cx(1.0, 0.0), lambda a, b: a * b)
    return z.re - 2.0 * z.im


@idiom("f n; f n; f n; f n")
def complex_dot(E, ar, ai, br, bi):
    a = E.array(lambda i: Cx(ar[i], ai[i]))
    b = E.array(lambda i: Cx(br[i], bi[i]))
    c = E.array(lambda i: a[i] * b[i])
    return E.array(lambda i: c[i].re + 10.0 * c[i].im)


@idiom("u n m", exact=False)
def mandelbrot(E, g):
    def go(i, j):
        c = Cx(g[i, j], 0.5 * g[i, j])
        z = E.fold(Cx(0.0, 0.0), lambda _, z: E.where(z.re * z.re + z.im * z.im > 4.0, z, z * z + c), count=5)
        return z.re + z.im

    return E.array(go)


@idiom("f n; f n", smooth=True)
def dual_poly(E, x, a):
    def at(i):
        X = Dual(x[i], 1.0)
        return E.fold(Dual(0.0, 0.0), lambda k, acc: acc * X + Dual(a[k], 0.0)).d

    return E.array(at, size=x.size())


@idiom("i n; i n; c", kind="i")
def affine_compose(E, a, b, x):
    m = E.array(lambda i: Affine(a[i] % 11, b[i] % 11)).reduce(
        Affine(1, 0), lambda p, q: Affine((p.a * q.a) % 101, (p.a * q.b + p.b) % 101)
    )
    return m.a * x + m.b


@idiom("i n; i n", kind="i")
def affine_compose_each(E, a, b):
    return E.array(
        lambda r: (
            lambda m: m["k"] * 7 + m["c"]
        )(
            E.array(lambda i: {"k": (a[i] + r) % 5, "c": b[i]}).reduce(
                {"k": 1, "c": 0}, lambda p, q: {"k": (p["k"] * q["k"]) % 13, "c": (p["k"] * q["c"] + p["c"]) % 13}
            )
        ),
        size=3,
    )


@idiom("f n m")
def minmax_rows(E, x):
    mm = E.array(
        lambda i: E.array(lambda j: {"lo": x[i, j], "hi": x[i, j]}).reduce(
            {"lo": math.inf, "hi": -math.inf}, lambda p, q: {"lo": p["lo"].min(q["lo"]), "hi": p["hi"].max(q["hi"])}
        )
    )
    return E.array(lambda i: E.where(mm[i]["lo"] <= mm[i]["hi"], mm[i]["hi"] - mm[i]["lo"], 0.0))


@idiom("i n", kind="i")
def first_last(E, x):
    v = E.array(lambda i: (x[i], x[i], 1)).reduce(
        (0, 0, 0), lambda p, q: (E.where(p[2] == 0, q[0], p[0]), E.where(q[2] == 0, p[1], q[1]), p[2] + q[2])
    )
    return v[0] * 100 + v[1] * 10 + v[2]


@idiom("i n m", kind="i")
def first_per_row(E, x):
    def row(i):
        v = E.array(lambda j: (x[i, j], 1)).reduce((0, 0), lambda p, q: (E.where(p[1] == 0, q[0], p[0]), p[1] + q[1]))
        return v[0] - v[1]

    return E.array(row)


@idiom("f n; f m", exact=True)
def zip_structs(E, a, b):
    recs = E.array(lambda i: {"pos": (a[i], i), "all": b})
    return E.array(lambda i, j: recs[i]["pos"][0] * recs[i]["all"][j] + recs[i]["pos"][1].float() + 0.0 * b[j])


@idiom("f n m; f n m", smooth=True)
def vec_reduce(E, a, b):
    return E.array(lambda i: E.array(lambda j: a[i, j] + b[i, j])).reduce(
        E.array(lambda j: 0.0 * a[0, j]), lambda u, v: E.array(lambda j: u[j] + v[j])
    )


@idiom("i t n n", kind="i")
def matrix_chain(E, A):
    n = A.size(1)
    eye = E.array(lambda i, j: E.where(i == j, 1, 0), size=(n, n))
    return A.reduce(eye, lambda X, Y: E.array(lambda i, j: E.fold(0, lambda k, s: (s + X[i, k] * Y[k, j]) % 101)))


@idiom("i t n n; i n", kind="i")
def matrix_chain_mod(E, A, d):
    n = A.size(1)
    eye = E.array(lambda i, j: E.where(i == j, 1, 0), size=(n, n))
    P = A.reduce(eye, lambda X, Y: E.array(lambda i, j: E.fold(0, lambda k, s: (s + X[i, k] * Y[k, j]) % 89)))
    return E.array(lambda i: E.fold(0, lambda j, s: (s + P[i, j] * d[j]) % 89))


@idiom("i n", kind="i")
def max_subarray(E, x):
    r = E.array(lambda i: (x[i], x[i].max(0), x[i].max(0), x[i].max(0))).reduce(
        (0, 0, 0, 0),
        lambda p, q: (p[0] + q[0], p[1].max(p[0] + q[1]), q[2].max(q[0] + p[2]), p[3].max(q[3]).max(p[2] + q[1])),
    )
    return r[3]


# ------------------------------------------------------------------ sharing, sizes, odds and ends
@idiom("f n m", smooth=True)
def shared_everywhere(E, x):
    s = E.fold_sum(lambda i: E.fold_sum(lambda j: x[i, j]))
    r = E.array(lambda i: E.fold_sum(lambda j: x[i, j]))
    t = s * s
    return E.array(lambda i, j: x[i, j] * s + r[i] * t - t * r[0])


@idiom("f n; f n", smooth=True)
def doubling_share(E, x, y):
    def at(i):
        t = x[i] + y[i]
        for _ in range(6):
            t = (t + t) * 0.5 + x[i]
        return t

    return E.array(at)


@idiom("f n m")
def sizes_matter(E, x):
    y = E.array(lambda j, i: x[i, j])
    return E.array(lambda i: y.size(0).float() * 10.0 + y.size(1).float() + x[i, 0])


@idiom("f n m; f m", smooth=True)
def broadcast_axes(E, x, b):
    return E.array(lambda j, i: x[i, j] * b[j] + b[0] - x[0, j])


@idiom("f a b c; f c a", smooth=True)
def contract_mixed(E, x, y):
    return E.array(lambda j: E.fold_sum(lambda i: E.fold_sum(lambda k: x[i, j, k] * y[k, i])))


@idiom("f a b c d")
def permute4(E, x):
    return E.array(lambda l, j, i, k: x[i, j, k, l] - x[i, 0, k, l])


@idiom("f n; b n")
def masked(E, x, m):
    return E.array(lambda i: E.where(m[i] & (x[i] > 0.0), x[i], -x[i]))


@idiom("b n; b n", kind="b")
def logic_table(E, p, q):
    return E.array(lambda i: (p[i] | ~q[i]) & ~(p[i] & q[i]))


@idiom("i n; i n", kind="i")
def int_arith(E, a, b):
    return E.array(lambda i: (a[i] * b[i] - a[i] % 3 + (-b[i]) % 4).max(a[i]).min(b[i] * 2) + abs(a[i]))


@idiom("f n; c", kind="f")
def where_vectors(E, x, k):
    y = E.where(k > 2, x, E.array(lambda i: -x[i]))
    return E.array(lambda i: y[i] + 1.0)


@idiom("f n m; c")
def where_matrices_in_fold(E, x, k):
    return E.fold(x, lambda t, u: E.where(t % 2 == 0, E.array(lambda i, j: u[i, j] + 1.0), E.array(lambda i, j: u[i, j] * 2.0)), count=k)


@idiom("f n; i k")
def lookup_in_fold(E, x, p):
    return E.fold(0.0, lambda t, acc: acc + x[p[t]] * x[t + p[t]])


@idiom("f n m")
def acc_indexed_by_counter(E, x):
    v0 = E.array(lambda j: x[0, j])
    return E.fold(v0, lambda i, v: E.array(lambda j: x[i, j] + v[i] - v[j - i]))


@idiom("f n")
def self_difference_table(E, x):
    return E.array(lambda i, j: x[i] - x[j] + x[i + j])


@idiom("f n; f n; f n")
def sum3(E, a, b, c):
    return E.array(lambda i: E.fold_sum(lambda j: a[j] * b[i] + c[i])).concat(E.array(lambda i: a[i] - c[i]))


@idiom("c", kind="i")
def iota_sum(E, n):
    return E.fold(0, lambda i, s: s + i * i, count=n)


@idiom("c; c", kind="i", jax=False)
def dyn_table(E, n, m):
    return E.array(lambda i, j: i * 10 + j, size=(n, m))

"""Typed programs over Ein's public surface: the terms the monitors execute.

A program is a tree of `Node`s over named inputs.  It has two independent
readings: `render` gives Python source that calls Ein's public API (the code
under observation), and `einrv.ref` evaluates it pointwise in plain Python (the
oracle).  Types carry concrete sizes so that only well-defined programs are made.

types: 'i' int, 'f' exact float, 'g' inexact float, 'b' bool,
       ('v', n, T), ('t', (T,..)), ('d', ((name, T),..)), ('c', cls, ((name, T),..))
"""
from __future__ import annotations

SCALARS = ("i", "f", "g", "b")


class Node:
    __slots__ = ("op", "ty", "args", "a")

    def __init__(self, op, ty, args=(), **a):
        self.op, self.ty, self.args, self.a = op, ty, tuple(args), a

    def with_args(self, args):
        n = Node(self.op, self.ty, args)
        n.a = self.a
        return n

    def walk(self):
        yield self
        for s in self.args:
            yield from s.walk()

    def size(self):
        return 1 + sum(s.size() for s in self.args)


def V(n, t):
    return ("v", n, t)


def is_vec(t):
    return isinstance(t, tuple) and t[0] == "v"


def is_rec(t):
    return isinstance(t, tuple) and t[0] in "tdc"


def comps(t):
    """[(key, type)] of a record type"""
    if t[0] == "t":
        return list(enumerate(t[1]))
    if t[0] == "d":
        return list(t[1])
    return list(t[2])


def dims_of(t):
    r = []
    while is_vec(t):
        r.append(t[1])
        t = t[2]
    return r, t


def nd(dims, s):
    for n in reversed(dims):
        s = ("v", n, s)
    return s


def has_rec(t):
    if is_vec(t):
        return has_rec(t[2])
    return is_rec(t)


def lower(t):
    """forget exactness: the type Ein sees, with sizes"""
    if t == "g":
        return "f"
    if is_vec(t):
        return ("v", t[1], lower(t[2]))
    if is_rec(t):
        if t[0] == "t":
            return ("t", tuple(lower(x) for x in t[1]))
        if t[0] == "d":
            return ("d", tuple((k, lower(x)) for k, x in t[1]))
        return ("c", t[1], tuple((k, lower(x)) for k, x in t[2]))
    return t


# ---------------------------------------------------------------- builders
def lit(v, ty=None):
    if ty is None:
        ty = "b" if isinstance(v, bool) else "i" if isinstance(v, int) else "f"
    return Node("lit", ty, (), v=v)


def var(name, ty):
    return Node("var", ty, (), name=name)


def op(k, ty, *args, **a):
    return Node("op", ty, args, k=k, **a)


def get(t, *items):
    ty = t.ty
    for _ in items:
        ty = ty[2]
    return Node("get", ty, (t, *items))


def let(name, bind, body):
    return Node("let", body.ty, (bind, body), name=name)


def array(names, sizes, body, explicit=None):
    """sizes: concrete ints; explicit: list of size nodes, or None to infer"""
    ty = body.ty
    for n in reversed(sizes):
        ty = ("v", n, ty)
    return Node(
        "array", ty, (body, *(explicit or ())), names=tuple(names), infer=explicit is None
    )


def fold(counter, acc, init, body, count=None):
    return Node(
        "fold",
        init.ty,
        (init, body, *(() if count is None else (count,))),
        counter=counter,
        acc=acc,
    )


def rec(ty, *args):
    return Node("rec", ty, args)


def field(t, key):
    return Node("field", dict(comps(t.ty))[key], (t,), key=key)


# ---------------------------------------------------------------- rendering
INFIX = {
    "add": "+",
    "sub": "-",
    "mul": "*",
    "mod": "%",
    "lt": "<",
    "le": "<=",
    "gt": ">",
    "ge": ">=",
    "eq": "==",
    "ne": "!=",
    "and": "&",
    "or": "|",
    "div": "/",
    "pow": "**",
}


def pylit(v):
    if isinstance(v, float):
        if v != v:
            return "NAN"
        if v in (float("inf"), float("-inf")):
            return "INF" if v > 0 else "(-INF)"
    return repr(v) if not (isinstance(v, (int, float)) and v < 0) else f"({v!r})"


def render(n: Node) -> str:
    r = render
    o = n.op
    A = n.args

    def raw(x):
        """a position in which Ein promotes Python scalars"""
        return pylit(x.a["v"]) if x.op == "lit" and not x.a.get("w") else r(x)

    if o == "lit":
        return f"wrap({pylit(n.a['v'])})"
    if o == "var":
        return n.a["name"]
    if o == "op":
        k = n.a["k"]
        if k in INFIX:
            x, y = A
            if x.op == "lit" and y.op == "lit":
                return f"({r(x)} {INFIX[k]} {raw(y)})"
            # bool & bool, and int/float ** Scalar have no reflected form
            if x.op == "lit" and k in ("mod", "and", "or", "pow"):
                return f"({r(x)} {INFIX[k]} {raw(y)})"
            return f"({raw(x)} {INFIX[k]} {raw(y)})"
        if k == "neg":
            return f"(-{r(A[0])})"
        if k == "not":
            return f"(~{r(A[0])})"
        if k == "powi":
            return f"({r(A[0])} ** {n.a['n']})"
        if k in ("min", "max"):
            if n.a.get("std"):
                return f"std_{k}({', '.join(raw(x) if i else r(x) for i, x in enumerate(A))})"
            return f"{r(A[0])}.{k}({raw(A[1])})"
        if k == "where":
            if n.a.get("m"):
                return f"{r(A[0])}.where({raw(A[1])}, {raw(A[2])})"
            return f"where({raw(A[0])}, {raw(A[1])}, {raw(A[2])})"
        if k == "abs" and n.a.get("std"):
            return f"abs({r(A[0])})"
        # method style: float, abs, exp, sin, cos, tanh
        return f"{r(A[0])}.{k}()"
    if o == "get":
        t, *it = A
        style = n.a.get("style", 0)
        if style and len(it) > 1:
            return r(t) + "".join(f"[{raw(i)}]" for i in it)
        return f"{r(t)}[{', '.join(raw(i) for i in it)}]"
    if o == "slice":  # t[:, ..., item]
        t, it = A
        return f"{r(t)}[{':, ' * n.a['k']}{raw(it)}]"
    if o == "colon":  # t[:]
        return f"{r(A[0])}[:]"
    if o == "size":
        return f"{r(A[0])}.size({n.a['axis']})"
    if o == "array":
        body, *ex = A
        names = n.a["names"]
        s = f"array(lambda {', '.join(names)}: {r(body)}"
        if n.a.get("typed"):
            return f"array{len(names)}(lambda {', '.join(names)}: {r(body)})"
        if n.a["infer"]:
            return s + ")"
        ss = [raw(x) for x in ex]
        return s + f", size={ss[0] if len(ss) == 1 else '(' + ', '.join(ss) + ')'})"
    if o == "concat":
        if len(A) == 2 and not n.a.get("std"):
            return f"{r(A[0])}.concat({r(A[1])})"
        return f"concat({', '.join(map(r, A))})"
    if o == "fold":
        init, body, *c = A
        s = f"fold({raw(init)}, lambda {n.a['counter']}, {n.a['acc']}: {r(body)}"
        return s + (f", count={raw(c[0])})" if c else ")")
    if o == "stdfold":  # fold_sum & co.
        body, *c = A
        s = f"{n.a['k']}(lambda {n.a['counter']}: {r(body)}"
        return s + (f", count={raw(c[0])})" if c else ")")
    if o == "reduce":
        vec, init, body = A
        if n.a.get("monoid"):  # Monoid(identity, concat).reduce over the vector's indices
            k = n.a["monoid"]
            return (
                f"(lambda _v: Monoid({r(init)}, lambda {n.a['x']}, {n.a['y']}: {r(body)})"
                f".{k}(lambda _i: _v[_i]))({r(vec)})"
            )
        return f"{r(vec)}.reduce({raw(init)}, lambda {n.a['x']}, {n.a['y']}: {r(body)})"
    if o == "rec":
        t = n.ty
        if t[0] == "t":
            if n.a.get("list"):
                return "[" + ", ".join(map(r, A)) + "]"
            return "(" + ", ".join(map(r, A)) + ",)"
        if t[0] == "d":
            return "{" + ", ".join(f"{k!r}: {r(x)}" for (k, _), x in zip(t[1], A)) + "}"
        return f"{t[1]}(" + ", ".join(f"{k}={r(x)}" for (k, _), x in zip(t[2], A)) + ")"
    if o == "field":
        t = A[0].ty
        k = n.a["key"]
        if t[0] == "c":
            return f"{r(A[0])}.{k}"
        return f"{r(A[0])}[{k!r}]"
    if o == "let":
        return f"(lambda {n.a['name']}: {r(A[1])})({r(A[0])})"
    if o == "wheres":  # where on vectors and records
        return f"where({raw(A[0])}, {r(A[1])}, {r(A[2])})"
    if o == "or_empty":
        return f"{r(A[0])}.or_empty({raw(A[1])}, {raw(A[2])})"
    if o == "assume":
        return f"{r(A[0])}.assume({r(A[1])})"
    if o == "ext":
        return f"EXT[{n.a['k']!r}]({', '.join(map(r, A))})"
    raise AssertionError(o)


def free_vars(n: Node, bound=frozenset(), out=None):
    out = set() if out is None else out
    if n.op == "var":
        if n.a["name"] not in bound:
            out.add(n.a["name"])
        return out
    inner = bound
    if n.op == "array":
        inner = bound | set(n.a["names"])
        free_vars(n.args[0], inner, out)
        for x in n.args[1:]:
            free_vars(x, bound, out)
    elif n.op == "fold":
        init, body, *c = n.args
        free_vars(init, bound, out)
        free_vars(body, bound | {n.a["counter"], n.a["acc"]}, out)
        for x in c:
            free_vars(x, bound, out)
    elif n.op == "stdfold":
        free_vars(n.args[0], bound | {n.a["counter"]}, out)
        for x in n.args[1:]:
            free_vars(x, bound, out)
    elif n.op == "reduce":
        free_vars(n.args[0], bound, out)
        free_vars(n.args[1], bound, out)
        free_vars(n.args[2], bound | {n.a["x"], n.a["y"]}, out)
    elif n.op == "let":
        free_vars(n.args[0], bound, out)
        free_vars(n.args[1], bound | {n.a["name"]}, out)
    else:
        for x in n.args:
            free_vars(x, bound, out)
    return out


def binders(n: Node, i: int):
    """names bound by n around its i-th argument"""
    if n.op == "array":
        return set(n.a["names"]) if i == 0 else set()
    if n.op == "fold":
        return {n.a["counter"], n.a["acc"]} if i == 1 else set()
    if n.op == "stdfold":
        return {n.a["counter"]} if i == 0 else set()
    if n.op == "reduce":
        return {n.a["x"], n.a["y"]} if i == 2 else set()
    if n.op == "let":
        return {n.a["name"]} if i == 1 else set()
    return set()

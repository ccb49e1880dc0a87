"""Ill-typed programs must be rejected; accepted ones have their static type (C11)."""
from __future__ import annotations

import numpy

from . import case, run
from .ctx import Skip
from .lang import Node, dims_of, free_vars, is_vec, render
from .profiles import PROFILES

RAW = {  # source text of well-typed values, by kind
    "i": ["wrap(1)", "wrap(-2)", "wrap(NPI)", "wrap(3).max(1)", "wrap(2).abs()"],
    "f": ["wrap(1.5)", "wrap(NPF)", "wrap(2).float()", "wrap(0.5).exp()"],
    "b": ["wrap(True)", "wrap(NPB)", "(wrap(1) < 2)", "(~wrap(False))"],
    "v": ["array(lambda _z: wrap(1.0), size=2)", "wrap(NPV)", "array(lambda _z: _z, size=2)"],
}
NUM = ("add", "sub", "mul", "min", "max", "lt", "le", "gt", "ge", "eq", "ne")


def text(r, kind):
    return Node("var", kind, (), name=r.choice(RAW[kind]))


def other(r, kind, vec=0.2):
    if r.random() < vec:
        return "v"
    return r.choice([k for k in "ifb" if k != kind])


def kind_of(t):
    return {"g": "f"}.get(t, t)


def sites(n: Node, path=()):
    """(path, argument number, what) at which a wrongly typed value can be put"""
    A = n.args
    if n.op == "op":
        k = n.a["k"]
        for i, x in enumerate(A):
            if isinstance(x.ty, str):
                if k == "powi" and n.a["n"] < 2:
                    continue
                yield path, i, "op:" + k
    elif n.op == "get":
        for i in range(1, len(A)):
            yield path, i, "item"
        yield path, 0, "target"
    elif n.op == "array" and not n.a["infer"] and not n.a.get("typed"):
        for i in range(1, len(A)):
            yield path, i, "size"
    elif n.op == "fold":
        if isinstance(A[0].ty, str):
            if n.a["acc"] not in free_vars(A[1]):  # otherwise the body might be fine for other types as well
                yield path, 0, "init"
            yield path, 1, "body"
        if len(A) > 2:
            yield path, 2, "count"
    elif n.op == "stdfold":
        if n.a["k"].endswith(("sum", "min", "max", "argmin")):
            yield path, 0, "summand"
        if len(A) > 1:
            yield path, 1, "count"
    elif n.op == "reduce":
        if isinstance(A[1].ty, str):
            yield path, 1, "init"
            yield path, 2, "body"
    elif n.op == "concat" and len(A) > 1:
        for i, x in enumerate(A):
            if is_vec(x.ty) and isinstance(x.ty[2], str):
                yield path, i, "concat"
    elif n.op == "wheres":
        yield path, 0, "cond"
        for i in (1, 2):
            if is_vec(A[i].ty) and isinstance(A[i].ty[2], str):
                yield path, i, "branch"
    elif n.op == "or_empty":
        if isinstance(A[2].ty, str):
            yield path, 2, "default"
    elif n.op == "rec":
        pass
    for i, x in enumerate(A):
        yield from sites(x, (*path, i))


def at(n, path):
    for i in path:
        n = n.args[i]
    return n


def put(n, path, i, new):
    if not path:
        return Node(n.op, n.ty, tuple(new if j == i else x for j, x in enumerate(n.args)), **n.a)
    return Node(n.op, n.ty, tuple(put(x, path[1:], i, new) if j == path[0] else x for j, x in enumerate(n.args)), **n.a)


def wrong(r, n, i, what):
    """a value that is wrong as the i-th argument of n, or None"""
    A = n.args
    t = A[i].ty
    if what.startswith("op:"):
        k = what[3:]
        kind = kind_of(t)
        if k in NUM and len(A) == 2 and kind_of(A[1 - i].ty) not in "ifb":
            return None
        if k == "where":
            if i == 0:
                return text(r, r.choice("ifv"))
            return text(r, other(r, kind))
        if k in ("neg", "abs"):
            return text(r, r.choice("bv"))
        if k == "powi":
            return text(r, r.choice("bv"))
        return text(r, other(r, kind))
    if what == "item":
        return text(r, r.choice("fbv"))
    if what == "target":
        return text(r, r.choice("ifb"))
    if what in ("size", "count"):
        return text(r, r.choice("fbv"))
    if what in ("init", "body", "default"):
        return text(r, other(r, kind_of(t)))
    if what == "summand":
        return text(r, r.choice("ibv"))
    if what == "cond":
        return text(r, r.choice("ifv"))
    if what in ("concat", "branch"):
        ds, s = dims_of(t)
        k = other(r, kind_of(s), 0)
        v = Node("var", t, (), name=f"array(lambda _z: {r.choice(RAW[k])}, size=2)")
        if r.random() < 0.3:  # or another rank
            v = Node("var", t, (), name=f"array(lambda _z, _y: {r.choice(RAW[kind_of(s)])}, size=(2, 2))")
        return v
    return None


def namespace():
    ns = dict(run.namespace())
    ns.update(NPI=numpy.array(2, numpy.int64), NPF=numpy.array(0.5), NPB=numpy.array(True), NPV=numpy.array([1.0, 2.0]))
    return ns


def mutants(c, profile):
    import ein

    cs = case.make(c.seed, PROFILES[profile])
    if cs is None:
        raise Skip("no program")
    r = c.rng("mutate")
    all_sites = list(sites(cs.body))
    if not all_sites:
        raise Skip("nothing to mutate")
    ns = namespace()
    names = list(cs.ins)
    types = [run.ein_type(t) for t in cs.ins.values()]
    by = {}
    for s in all_sites:
        by.setdefault(s[2], []).append(s)
    for _ in range(6):
        path, i, what = r.choice(by[r.choice(sorted(by))])
        n = at(cs.body, path)
        new = wrong(r, n, i, what)
        if new is None:
            continue
        src = render(put(cs.body, path, i, new))
        fun = eval(f"lambda {', '.join(names)}: {src}", dict(ns))
        wrapped = r.random() < 0.5
        c.event("evaluations")
        c.event("mutant:" + what)
        with c.observing():
            try:
                if wrapped:
                    ein.wrap(fun(*(ein.wrap(a) for a in case.arrays(cs).values()))).expr.type
                else:
                    ein.with_varargs(types, fun)
                raised = None
            except TimeoutError:
                raise
            except Exception as e:
                raised = e
        if raised is None:
            c.violation(f"accepted a program with an ill-typed {what}: {render(Node(n.op, n.ty, tuple(new if j == i else x for j, x in enumerate(n.args)), **n.a))[:200]}",
                        dict(src=src, what=what, ins={k: str(t) for k, t in cs.ins.items()}))
        else:
            c.event("raised:" + type(raised).__name__)
        c.seen(src)
        c.sample(dict(src=src[:300], what=what, raised=type(raised).__name__))


def static(c, profile):
    """the type a program has before evaluation is the one its value has"""
    import ein

    cs = case.make(c.seed, PROFILES[profile])
    if cs is None:
        raise Skip("no program")
    fun = run.build(cs.src, list(cs.ins))
    with c.observing():
        _, expr = ein.with_varargs([run.ein_type(t) for t in cs.ins.values()], fun)
        got = expr.type
    want = run.ein_type(cs.ty)
    c.event("evaluations")
    if got != want:
        c.violation(f"static type {got}, expected {want} | {cs.src[:300]}", dict(src=cs.src))
    c.seen(cs.src)
    c.sample(dict(src=cs.src[:300], type=str(got)))


def _tables():
    import ein
    from ein.frontend import functions, std

    w = ein.wrap
    f1, i1, b1 = (lambda n=3: w(numpy.arange(float(n)))), (lambda n=3: w(numpy.arange(n))), (lambda: w(numpy.array([True, False, True])))
    m = lambda: w(numpy.zeros((2, 3)))
    S = ein.scalar_type
    V = ein.vector_type
    T = functions.typed_function
    ident = lambda *a: a[0]
    var = lambda t: ein.phi.phi.variable(ein.symbols.Variable(), t)
    E = ein.ext(lambda a: a, ((S(float),), S(float)))
    E2 = ein.ext(lambda a, b: a, ((S(float), V(int)), S(float)))
    tf = T(S(float), V(int))(lambda a, b: a + b[0].float())
    tf0 = T(V(float))(lambda v: ein.array(lambda i: v[i]))
    fn = ein.function(lambda a, b: a + b)
    free = lambda t=S(float): ein.frontend.ndarray._to_array(var(t))
    A = numpy.array

    build = {  # must raise when built
        "float index": lambda: f1()[1.0],
        "bool index": lambda: f1()[True],
        "float array index": lambda: ein.array(lambda i: f1()[f1()[i]]),
        "bool array index": lambda: ein.array(lambda i: f1()[b1()[i]]),
        "second float index": lambda: m()[0, 1.5],
        "vector index": lambda: f1()[i1()],
        "index too deep": lambda: f1()[0, 0],
        "index of scalar": lambda: w(1.0)[0],
        "int plus float": lambda: w(1) + 1.0,
        "float plus int": lambda: w(1.0) + 1,
        "reflected": lambda: 1 + w(1.0),
        "reflected sub": lambda: 1 - w(1.0),
        "reflected mul": lambda: 2 * w(1.0),
        "int division": lambda: w(4) / w(2),
        "int by float": lambda: w(4) / 2.0,
        "float by int": lambda: w(4.0) / 2,
        "reflected division": lambda: 1 / w(2.0),
        "bool arithmetic": lambda: w(True) + w(True),
        "bool negation": lambda: -w(True),
        "bool min": lambda: w(True).min(False),
        "bool less": lambda: w(True) < w(False),
        "bool equal": lambda: w(True) == w(False),
        "bool float": lambda: w(True).float(),
        "float float": lambda: w(1.0).float(),
        "int exp": lambda: w(1).exp(),
        "int sin": lambda: w(1).sin(),
        "bool cos": lambda: w(True).cos(),
        "int tanh": lambda: w(1).tanh(),
        "bool abs": lambda: w(True).abs(),
        "float mod": lambda: w(1.5) % w(1.0),
        "mixed mod": lambda: w(3) % 2.0,
        "int power": lambda: w(2) ** w(2),
        "float power int": lambda: w(2.0) ** w(2),
        "int negative power": lambda: w(2) ** -1,
        "and int": lambda: w(True) & 1,
        "or float": lambda: w(True) | w(1.0),
        "not int": lambda: ~w(1),
        "where int": lambda: ein.where(w(1), 1.0, 2.0),
        "where branches": lambda: ein.where(w(True), 1.0, 2),
        "where bool branch": lambda: w(True).where(1, False),
        "where vector condition": lambda: ein.where(b1(), f1(), f1()),
        "where ranks": lambda: ein.where(True, f1(), m()),
        "where vector kinds": lambda: ein.where(True, f1(), i1()),
        "where vector and scalar": lambda: ein.where(True, f1(), 1.0),
        "vector plus vector": lambda: f1() + f1(),
        "scalar plus vector": lambda: w(1.0) + f1(),
        "scalar less vector": lambda: w(1.0) < f1(),
        "vector equals": lambda: ein.array(lambda i: w(1.0).max(f1())),
        "float size": lambda: ein.array(lambda i: i, size=2.0),
        "bool size": lambda: ein.array(lambda i: i, size=w(True)),
        "vector size": lambda: ein.array(lambda i: i, size=i1()),
        "index size": lambda: ein.array(lambda i: ein.array(lambda j: j, size=i)[0], size=3),
        "too many sizes": lambda: ein.array(lambda i: i, size=(2, 3)),
        "float count": lambda: ein.fold(0.0, lambda i, a: a, count=2.0),
        "bool count": lambda: ein.fold(0.0, lambda i, a: a, count=w(True)),
        "vector count": lambda: ein.fold(0.0, lambda i, a: a, count=i1()),
        "init int body float": lambda: ein.fold(0, lambda i, a: f1()[i]),
        "init float body int": lambda: ein.fold(0.0, lambda i, a: i1()[i]),
        "init bool": lambda: ein.fold(False, lambda i, a: f1()[i]),
        "init rank": lambda: ein.fold(0.0, lambda i, a: f1(), count=2),
        "init record kinds": lambda: ein.fold((0.0, 0), lambda i, a: (a[1], a[0]), count=2),
        "sum of ints": lambda: std.fold_sum(lambda i: i1()[i]),
        "min of ints": lambda: std.fold_min(lambda i: i1()[i]),
        "reduce sum of ints": lambda: std.reduce_sum(lambda i: i1()[i]),
        "argmin of bools": lambda: std.fold_argmin(lambda i: b1()[i]),
        "sum of vectors": lambda: std.fold_sum(lambda i: m()[i]),
        "reduce init kind": lambda: f1().reduce(0, lambda a, b: a + b),
        "reduce body kind": lambda: f1().reduce(0.0, lambda a, b: a < b),
        "reduce init rank": lambda: m().reduce(0.0, lambda a, b: a),
        "reduce record": lambda: ein.array(lambda i: (f1()[i], i)).reduce((0.0, 0.0), lambda a, b: a),
        "reduce of a scalar": lambda: w(1.0).reduce(0.0, lambda a, b: a),
        "concat kinds": lambda: f1().concat(i1()),
        "concat ranks": lambda: f1().concat(m()),
        "concat scalar": lambda: f1().concat(w(1.0)),
        "std concat": lambda: std.concat(f1(), f1(), i1()),
        "std min kinds": lambda: std.min(1.0, 2),
        "ext kind": lambda: E(w(1)),
        "ext rank": lambda: E(f1()),
        "ext arity": lambda: E(w(1.0), w(1.0)),
        "ext arity 0": lambda: E(),
        "ext second": lambda: E2(w(1.0), f1()),
        "ext second rank": lambda: E2(w(1.0), w(1)),
        "ext result": lambda: E(w(1.0)) + 1,
        "string": lambda: w("x"),
        "list": lambda: w([1.0, 2.0]),
        "none": lambda: w(None),
        "complex": lambda: w(A([1j])),
        "python complex": lambda: w(1j),
        "strings": lambda: w(A(["a"])),
        "objects": lambda: w(A([object()])),
        "dates": lambda: w(A(["2020-01-01"], dtype="datetime64[D]")),
        "plus string": lambda: w(1.0) + "1",
        "plus none": lambda: w(1.0) + None,
        "empty tuple": lambda: ein.array(lambda i: (), size=2),
        "empty dict": lambda: ein.fold({}, lambda i, a: a, count=2),
        "condition": lambda: 1 if w(True) else 2,
        "vector condition": lambda: 1 if b1() else 2,
        "iteration": lambda: list(f1()),
        "unpacking": lambda: (lambda a, b: a)(*f1(2)),
        "bounded slice": lambda: f1()[1:],
        "step slice": lambda: f1()[::2],
        "stop slice": lambda: m()[:, :1],
        "power modulo": lambda: pow(w(2), 2, 3),
    }
    call = {  # must raise when built or called
        "free variable": lambda be: free().eval(backend=be),
        "free variable under array": lambda be: ein.array(lambda i: f1()[i] + free()).eval(backend=be),
        "partly bound": lambda be: (lambda p, q: (p + q).eval(env={p.expr.symbol: A(1.0)}, backend=be))(free(), free()),
        "free in unused": lambda be: ein.where(w(True), 1.0, free()).eval(backend=be),
        "typed kind": lambda be: getattr(tf, be)(A(1), A([1])),
        "typed second kind": lambda be: getattr(tf, be)(A(1.0), A([1.0])),
        "typed rank": lambda be: getattr(tf, be)(A(1.0), A(1)),
        "typed first rank": lambda be: getattr(tf, be)(A([1.0]), A([1])),
        "typed swapped": lambda be: getattr(tf, be)(A([1]), A(1.0)),
        "typed missing": lambda be: getattr(tf, be)(A(1.0)),
        "typed extra": lambda be: getattr(tf, be)(A(1.0), A([1]), A(1.0)),
        "typed bool": lambda be: getattr(tf, be)(A(True), A([1])),
        "typed matrix": lambda be: getattr(tf0, be)(A([[1.0]])),
        "typed int vector": lambda be: getattr(tf0, be)(A([1])),
        "function kinds": lambda be: getattr(fn, be)(A(1), A(1.0)),
        "function bools": lambda be: getattr(fn, be)(A(True), A(False)),
        "function vectors": lambda be: getattr(fn, be)(A([1.0]), A([1.0])),
        "function missing": lambda be: getattr(fn, be)(A(1.0)),
        "function extra": lambda be: getattr(fn, be)(A(1.0), A(1.0), A(1.0)),
        "function complex": lambda be: getattr(fn, be)(A(1j), A(1j)),
        "result not a value": lambda be: getattr(ein.function(lambda a: "x"), be)(A(1.0)),
        "result none": lambda be: getattr(ein.function(lambda a: None), be)(A(1.0)),
        "axis out of range": lambda be: f1().size(1).eval(backend=be),
        "axis of matrix": lambda be: m().size(2).eval(backend=be),
        "axis negative": lambda be: m().size(-1).eval(backend=be),
        "unknown backend": lambda be: w(1.0).eval(backend="nosuch"),
    }
    return build, call, (tf, tf0, fn)


def table(c):
    build, call, fs = _tables()
    r = c.rng("table")
    todo = [("build", k) for k in sorted(build)] + [("call", k) for k in sorted(call)]
    where, k = todo[c.index % len(todo)]
    be = r.choice(["numpy", "torch", "jax"])
    if where == "call" and r.random() < 0.5 and k.startswith("typed"):
        # a call that is accepted does not make the next one accepted
        tf, tf0, _ = fs
        getattr(tf, be)(numpy.array(1.0), numpy.array([1]))
        getattr(tf0, be)(numpy.array([1.0]))
        c.event("after an accepted call")
    if where == "call" and not k.startswith(("typed", "function", "result")):
        be = r.choice(["numpy", "torch", "naive"])
    for attempt in range(2):  # not at random: the second attempt is rejected like the first
        c.event("evaluations")
        with c.observing():
            try:
                v = build[k]() if where == "build" else call[k](be)
                raised = None
            except TimeoutError:
                raise
            except Exception as e:
                raised = e
        if raised is None:
            c.violation(f"{where}: {k}{'' if where == 'build' else ' on ' + be}: accepted (attempt {attempt + 1}), giving {str(v)[:100]}", dict(case=k, backend=be))
            break
        c.event("raised:" + type(raised).__name__)
    c.seen(where, k, be)
    c.sample(dict(case=k, raised=type(raised).__name__))

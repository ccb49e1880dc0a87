"""Writes properties.jsonl (kept as a script so the file is easy to maintain)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))
CG = ["ein/codegen/phi_to_yarr.py", "ein/codegen/axial.py", "ein/codegen/array_indexing.py", "ein/codegen/yarr.py"]
MID = ["ein/midend/lining.py", "ein/midend/structs.py", "ein/midend/size_classes.py", "ein/midend/substitution.py"]
OBS = ["value returned by .eval / @function / interpret_with_*"]

p("C01", "NumPy evaluation equals the pointwise meaning of the program",
  "Evaluating any well-typed program on the NumPy backend yields exactly the array obtained by computing every element independently from the definition of array, fold, reduce, indexing, concat, records and scalar operators, with the same shape and scalar kind. This holds for every nesting of these constructs, for every input size including 0 and 1, and however the inputs are supplied (wrapped constants, environment variables, function arguments, any memory layout).",
  ["programs", "inputs"], "all well-typed programs over the public API and all input arrays (sizes 0..n, any layout, read-only or not)",
  "The suite evaluates a few dozen fixed programs on fixed small inputs; compilation is a whole-program vectorisation whose cases interact (alignment, elision, takes, einsum, in-place reuse), so the quantifier is over programs and shapes.",
  CG + MID + ["ein/backend/numpy_backend.py", "ein/backend/array_backend.py", "ein/frontend/comprehension.py"],
  [("vectorising transform", "ein/codegen/phi_to_yarr.py"), ("staged execution", "ein/backend/numpy_backend.py")], OBS)
p("C02", "Torch evaluation equals the pointwise meaning of the program",
  "Evaluating any well-typed program on the Torch backend, with NumPy arrays or tensors as inputs, yields a tensor equal elementwise to the pointwise meaning of the program, of the same shape and scalar kind. It accepts every program that the NumPy backend accepts.",
  ["programs", "inputs"], "all well-typed programs and all inputs representable as tensors",
  "Tests run only a handful of programs on Torch; Torch lacks broadcasting and edge padding in several primitives so each primitive has its own shape-dependent failure modes.",
  CG + ["ein/backend/torch_backend.py", "ein/backend/array_backend.py"], [("Torch primitives", "ein/backend/torch_backend.py")], OBS)
p("C03", "JAX evaluation equals the pointwise meaning of the program",
  "Evaluating any well-typed program whose array sizes are determined by input shapes on the JAX backend yields an array equal elementwise to the pointwise meaning of the program, of the same shape and scalar kind. In particular indexing shifted by runtime data or by a fold counter, and folds with runtime counts, are accepted.",
  ["programs", "inputs"], "all well-typed programs whose sizes depend only on input shapes, and all inputs",
  "Tests exercise JAX on few programs; tracing makes failures depend on which values are compile-time constants, and this depends on the program.",
  CG + ["ein/backend/jax_backend.py", "ein/backend/array_backend.py"], [("JAX primitives and jit wrapper", "ein/backend/jax_backend.py")], OBS)
p("C04", "The naive interpreter agrees with the pointwise meaning",
  "The reference interpreter returns, for every well-typed program and input, the array given by the pointwise meaning of the program, including empty comprehensions (which keep the shape and scalar kind of their elements) and folds of zero or negative count.",
  ["programs", "inputs"], "all well-typed programs and inputs of moderate size",
  "The tests use the naive backend as an oracle for the others on fixed programs, so nothing checks the oracle itself beyond those.",
  ["ein/backend/naive.py"] + MID, [("direct interpretation", "ein/backend/naive.py")], OBS)
p("C05", "Indexing reads the addressed element, saturating at array bounds",
  "x[e] denotes the element of x at position e, and when e is below 0 or past the end it denotes the first or last element respectively; this holds whatever the form of e (an index, an index plus or minus any shift, clipped by min/max on either side in any order, a value read from another array, a counter or accumulator) and whatever axis, on all backends. Reading from an empty axis never fails, and never disturbs other elements of the result.",
  ["programs", "inputs"], "all index expressions, ranks, axes, sizes and values of shifts and bounds",
  "Slice-pad, take, gather and elision are alternative implementations chosen by the syntactic form of the index; tests cover a few shifts within bounds.",
  ["ein/codegen/array_indexing.py", "ein/codegen/axial.py", "ein/backend/numpy_backend.py", "ein/backend/torch_backend.py", "ein/backend/jax_backend.py", "ein/backend/naive.py", "ein/midend/size_classes.py"],
  [("clipped shift matching and slice-pad", "ein/codegen/array_indexing.py"), ("edge padding, clipping takes and gathers", "ein/backend/*.py"), ("slice elision by size classes", "ein/midend/size_classes.py")], OBS)
p("C06", "A fold is its sequential loop",
  "fold(init, step, count) equals starting from init and applying step for counters 0, 1, ..., count-1 in that order, and equals init when count is zero or negative. This holds for any accumulator (scalar, array, record), any dependence of step on counter, accumulator and enclosing indices, any nesting, and whether or not the fold is recognised as a sum, minimum, maximum or a sum of products.",
  ["programs", "inputs"], "all folds: steps, initialisers, counts, nesting, accumulator shapes",
  "Recognised folds take entirely different code paths depending on syntactic form and on inferred sizes; tests fix a few forms.",
  ["ein/codegen/phi_to_yarr.py", "ein/backend/array_backend.py", "ein/backend/naive.py", "ein/backend/jax_backend.py", "ein/frontend/comprehension.py", "ein/frontend/std.py"],
  [("reduction and einsum recognition", "ein/codegen/phi_to_yarr.py"), ("loop execution", "ein/backend/array_backend.py")], OBS)
p("C07", "Reducing by a monoid combines all elements, in order, for every length",
  "For every associative operation with identity (commutative or not; on scalars, arrays or records; possibly depending on enclosing indices), v.reduce(identity, op) equals combining the elements of v from first to last, and equals the identity when v is empty, on all backends and for every length. The standard reductions (sum, min, max, argmin) and user-made monoids, whether folded or reduced, agree with this.",
  ["programs", "inputs"], "all monoids and all lengths, batched or not",
  "Reductions are evaluated as a halving tree whose behaviour depends on the binary expansion of the length; tests try few lengths and mostly commutative operations.",
  ["ein/backend/array_backend.py", "ein/midend/structs.py", "ein/codegen/phi_to_yarr.py", "ein/frontend/ndarray.py", "ein/frontend/std.py", "ein/backend/naive.py"],
  [("halving-tree reduction", "ein/backend/array_backend.py"), ("record flattening of reductions", "ein/midend/structs.py")], OBS)
p("C08", "Records keep every component under its own label",
  "Tuples, lists, dictionaries and dataclasses of Ein values, arbitrarily nested with arrays, can be built, indexed, selected with where, folded, reduced and concatenated, and reading a component always gives the value stored under that label or position, in the same Python structure it was stored in (lists come back as tuples). Combining values of different structure (labels, order of positions, arity, class) where the same one is required is rejected.",
  ["programs", "inputs"], "all record shapes, nestings with arrays, and operations on them",
  "The structure-of-arrays rewrite and the layouts are recursive over structure; tests cover pairs and a few dataclasses.",
  ["ein/frontend/layout.py", "ein/frontend/ndarray.py", "ein/frontend/std.py", "ein/midend/structs.py", "ein/frontend/comprehension.py"],
  [("layouts", "ein/frontend/layout.py"), ("struct-of-arrays transform", "ein/midend/structs.py")], OBS)
p("C09", "Sizes are inferred from the arrays directly indexed, or inference is rejected",
  "When the size of a comprehension or the count of a fold is omitted, it equals the length of the axis which its index or counter directly indexes, also through computed arrays, records, enclosing indices and accumulators; the result has that shape on every backend. If no directly indexed array determines it outside of the comprehension the program is rejected, and the time to infer sizes stays polynomial in the program.",
  ["programs", "inputs"], "all programs with omitted sizes, and all input shapes",
  "Inference depends on the whole body and its scoping; tests infer sizes from plain inputs.",
  ["ein/frontend/comprehension.py", "ein/midend/size_classes.py", "ein/midend/equiv.py"],
  [("size inference", "ein/frontend/comprehension.py:_infer_sizes"), ("size classes", "ein/midend/size_classes.py")], OBS + ["exceptions raised when building the program"])
p("C10", "Optimisations do not change results",
  "Switching any combination of the compiler's optimisation options on or off, outlining, inlining or re-applying program transformations, gives programs that evaluate to the same value with the same type and the same free variables. Writing the same computation with or without sharing of Python subexpressions also gives the same value.",
  ["programs", "configurations"], "all programs, all combinations of optimisation options and all passes",
  "Tests toggle no options and compare one pipeline only; interactions between options are exponential in number.",
  CG + MID, [("optimisation options of the transform", "ein/codegen/phi_to_yarr.py:transform"), ("outline/inline", "ein/midend/lining.py")], OBS + ["yarr/phi programs before and after each pass"])
p("C11", "Ill-typed programs are rejected, well-typed ones keep their type",
  "Operations on operands of the wrong scalar kind or rank (mixing int, float and bool, arithmetic on vectors, indexing with non-integers, differing branches of where, ill-typed initialisers, arguments not matching a declared signature, unbound free variables) raise an error when the program is built or called, never at random or not at all. A program that is accepted evaluates to an array whose rank and scalar kind (bool, int, float) are those of its static type, for any integer or floating width of the inputs.",
  ["programs", "inputs"], "all operators, constructs and operand types; all input dtypes",
  "There is a combinatorial number of (construct, operand types) pairs, and promotion differs per backend and dtype; tests check a few.",
  ["ein/phi/type_system.py", "ein/phi/phi.py", "ein/frontend/ndarray.py", "ein/frontend/functions.py", "ein/codegen/yarr.py"],
  [("signatures of scalar operators", "ein/phi/type_system.py"), ("types of terms", "ein/phi/phi.py")], OBS + ["exceptions raised when building the program"])
p("C12", "Evaluation is pure",
  "Building or evaluating a program never modifies the arrays given as inputs, constants or environment (contents, flags, or set of entries of the environment mapping), never modifies a previously returned result, writes nothing to standard output, and evaluating again gives the same result bit for bit. Read-only inputs are accepted, and an evaluation that fails, or is interrupted by an exception at any point, has no effect on later ones.",
  ["programs", "inputs", "histories"], "all programs, inputs and sequences of evaluations",
  "In-place reuse of temporaries and mutable environments are only unsafe for particular dataflow; tests do not check inputs after evaluation.",
  ["ein/backend/numpy_backend.py", "ein/backend/array_backend.py", "ein/backend/naive.py", "ein/codegen/phi_to_yarr.py", "ein/value.py"],
  [("in-place reuse of temporaries only", "ein/codegen/phi_to_yarr.py:apply_inplace_on_temporaries"), ("scoped environment entries", "ein/backend/array_backend.py")], ["input arrays, env dict and earlier results before/after evaluation"])
p("C13", "A staged function behaves as if compiled afresh on every call",
  "Each call of an Ein function gives the result its body has for these arguments, independently of previous calls: of their shapes, scalar kinds, ranks, backends, argument containers, and of whether they failed, at whatever point. Declared types are enforced on every call, and arguments are bound to parameters by position.",
  ["histories", "inputs"], "all sequences of calls with varying shapes, dtypes, backends, containers and failures",
  "The staging cache is keyed on types and backends; only call histories expose a key which is too coarse, and tests call functions once or twice.",
  ["ein/frontend/functions.py", "ein/backend/__init__.py", "ein/backend/numpy_backend.py", "ein/backend/torch_backend.py", "ein/backend/jax_backend.py"],
  [("staging cache", "ein/frontend/functions.py:Function._interpret")], ["results of each call of a history"])
p("C14", "Concurrent evaluations do not interfere",
  "Programs, functions and environments may be shared between threads: concurrent building, staging and evaluation (on the NumPy, Torch and naive backends) give each thread the result which it would get alone.",
  ["schedules", "programs"], "all interleavings of threads evaluating shared or distinct programs",
  "Tests are single-threaded.",
  ["ein/backend/array_backend.py", "ein/backend/numpy_backend.py", "ein/frontend/functions.py", "ein/codegen/array_indexing.py", "ein/term.py"],
  [("per-call environments", "ein/backend/*.py:interpret"), ("per-compilation caches", "ein/codegen/phi_to_yarr.py")], ["results per thread, compared with the oracle"])
p("C15", "Scalar operators compute their mathematical meaning on every backend",
  "Arithmetic, reflected arithmetic, comparison, logic, modulo, powers with integer and floating exponents, min, max, abs, where, conversions and transcendental functions applied to any scalars give the values of the corresponding Python/IEEE operations (results of division, powers and transcendental functions to floating-point accuracy), including negative numbers, zeros, infinities, not-a-numbers and large magnitudes. All backends agree.",
  ["inputs", "configurations"], "all operators and all operand values, with operands given as Python numbers, wrapped or computed values",
  "Tests sample few operands per operator; several operators are derived from others (division, powers, abs, tanh, reflected forms) and backends have separate tables.",
  ["ein/frontend/ndarray.py", "ein/frontend/std.py", "ein/codegen/yarr.py", "ein/phi/phi.py", "ein/backend/torch_backend.py", "ein/backend/jax_backend.py"],
  [("operator overloads", "ein/frontend/ndarray.py:Scalar"), ("operator tables", "ein/codegen/yarr.py, ein/backend/*_backend.py")], OBS)
p("C16", "External functions are applied pointwise",
  "An external function used in a program receives the operands it was applied to, broadcast along the enclosing comprehension indices, and every element of the result is what it returns for that element's operands, wherever the call occurs (in comprehensions, folds, reductions, record components, under let-sharing). Declared signatures are enforced.",
  ["programs", "inputs"], "all elementwise external functions over scalars and all programs using them",
  "Tests call two external functions in one context each.",
  ["ein/frontend/ndarray.py", "ein/codegen/phi_to_yarr.py", "ein/phi/phi.py", "ein/backend/array_backend.py", "ein/backend/naive.py"],
  [("extrinsic alignment", "ein/codegen/phi_to_yarr.py")], OBS + ["arguments seen by the external function"])
p("C17", "Gradients flow through Torch and JAX evaluation",
  "Differentiating an Ein function evaluated on Torch (autograd) or JAX (grad) with respect to its floating-point inputs gives the derivative of the pointwise meaning of the program wherever it is differentiable and its intermediate values are finite (reverse-mode differentiation on JAX being restricted to folds whose counts are known from shapes). Values computed under differentiation equal the plain ones.",
  ["programs", "inputs"], "all differentiable programs and points of differentiability",
  "Tests check one gradient; detaching, in-place or recomputed nodes break gradients only for particular constructs.",
  ["ein/backend/torch_backend.py", "ein/backend/jax_backend.py", "ein/frontend/functions.py", "ein/value.py"],
  [("operations on native tensors only", "ein/backend/torch_backend.py, ein/backend/jax_backend.py")], ["tensor.grad, jax.grad results"])
p("C18", "Shared and loop-invariant work is done once; distinct work is never merged",
  "A subexpression used many times in a program is evaluated once per scope, and one not depending on the variables of a loop (fold or reduction) is evaluated outside of the loop, whether its operands are shared or not; a reduction combines elements a number of times logarithmic in the length. (Both are observable by counting calls of external functions on the NumPy and Torch backends.) Compilation time does not grow exponentially with sharing. Subexpressions and constants that are not equal (including big arrays, arrays of equal contents but different dtype or shape, negative zero, arrays which were equal before one was refilled, and external functions that differ in what they captured) are never conflated.",
  ["programs", "inputs"], "all sharing structures and all constants",
  "Conflation requires specific colliding constants or scopes, and repeated work changes no results, so tests do not see either.",
  ["ein/midend/lining.py", "ein/value.py", "ein/term.py", "ein/midend/structs.py", "ein/phi/phi.py"],
  [("common subexpression binding and loop-invariant code motion", "ein/midend/lining.py"), ("structural equality of terms and values", "ein/term.py, ein/value.py")], ["calls of external functions during evaluation", "results"])
p("C19", "Folds over products and pairs do not materialise all iterations",
  "On the NumPy backend, a fold whose step combines two or more array elements selected by the counter, none of which alone ranges over all indices of the result (matrix products, min-plus products, pairwise distances and the like), or which reads elements at positions computed from the counter together with an index of the result (convolutions, sliding windows), is evaluated without ever allocating an array with one element for every pair of result element and iteration. Peak memory beyond inputs and outputs stays a small multiple of the sizes of the inputs and of the result.",
  ["programs", "inputs"], "all such folds, for any sizes",
  "Tests measure no memory, and the results are the same.",
  ["ein/codegen/phi_to_yarr.py", "ein/backend/numpy_backend.py", "ein/backend/array_backend.py"],
  [("memory-considerate vectorisation and einsum", "ein/codegen/phi_to_yarr.py:would_be_memory_considerate_axis")], ["traced peak of allocations during evaluation"])
p("C20", "Printing and drawing programs is total and without effect",
  "Pretty-printing any program, before or after compilation, and drawing its graph, terminates (in time that is not exponential in the nesting or sharing of the program) with a text that shows the variables and constants the program computes with, and neither evaluates nor changes the program: its later value is unaffected, and nothing is written to standard output.",
  ["programs"], "all programs",
  "Tests print a few programs; the printer is a large match over all constructs.",
  ["ein/debug/pprint.py", "ein/debug/graph.py", "ein/symbols.py"], [("pretty printer", "ein/debug/pprint.py")], ["printed text, and values before/after"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")

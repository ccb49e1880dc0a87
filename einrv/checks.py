"""Which workloads decide which property."""
from __future__ import annotations

import importlib


class W:
    def __init__(self, name, fun, quick, thorough=None, timeout=20, chunk=None, slow_ok=False, **params):
        """quick/thorough: number of cases"""
        self.name, self._fun, self.params = name, fun, params
        self.n = {"quick": quick, "thorough": thorough if thorough is not None else 20 * quick}
        self.timeout, self.chunk, self.slow_ok = timeout, chunk, slow_ok

    @property
    def fun(self):
        mod, f = self._fun.split(":")
        return getattr(importlib.import_module("einrv." + mod), f)


DIFF = "generated programs executed on the real backends under a differential oracle (independent pointwise evaluator)"


class Check:
    def __init__(self, rule, assumptions, workloads, job_timeout=240, technique=DIFF):
        self.technique = technique
        self.rule, self.assumptions, self.workloads, self.job_timeout = rule, assumptions, workloads, job_timeout

    def workload(self, name):
        return next(w for w in self.workloads if w.name == name)

    def jobs(self, pid, tier, seed, scale):
        lanes = []
        for w in self.workloads:
            n = max(1, int(w.n[tier] * scale)) if w.n[tier] else 0
            size = w.chunk or max(1, min(25, n // 16))
            lanes.append([dict(check=pid, workload=w.name, lo=lo, hi=min(lo + size, n), seed=seed, tier=tier)
                          for lo in range(0, n, size)])
        # interleave, so that an early stop still has seen every workload
        out = []
        total = max(map(len, lanes))
        for i in range(total):
            for lane in lanes:
                a, b = i * len(lane) // total, (i + 1) * len(lane) // total
                out.extend(lane[a:b])
        return out


ORACLE = ("the oracle is einrv/ref.py (and einrv/shadow.py for idioms), a pointwise evaluator in plain Python sharing no code with Ein; "
          "values are kept to a range in which float64/int64 arithmetic is exact, or compared to 1e-7 of the largest magnitude")
RULE = ("a case counts once per distinct rendered program (or distinct parameter tuple of a table-driven workload) "
        "with more than two nodes that was executed on the real code and judged by the oracle")


def prog(name, profile, backends, quick, thorough=None, **k):
    return W(name, "w_programs:programs", quick, thorough, profile=profile, backends=backends, **k)


def idi(backends, quick, thorough=None, name="idioms", **k):
    return W(name, "w_idioms:idioms", quick, thorough, backends=backends, **k)


ALL = ("numpy", "torch", "jax", "naive")
FAST = ("numpy", "torch", "naive")

CHECKS = {
    "C01": Check(RULE, [ORACLE], [
        prog("broad", "broad", ("numpy",), 3000),
        prog("deep", "deep", ("numpy",), 900),
        prog("small", "small", ("numpy",), 2000),
        prog("big", "big", ("numpy",), 240),
        prog("huge", "huge", ("numpy",), 64),
        prog("widths", "kinds", ("numpy",), 800, widths=True),
        idi(("numpy",), 1400),
        idi(("numpy",), 190, name="idioms_big", dims=(1, 7, 9, 12, 16)),
    ]),
    "C02": Check(RULE, [ORACLE], [
        prog("broad", "broad", ("torch",), 2500),
        prog("deep", "deep", ("torch",), 600),
        prog("small", "small", ("torch",), 1500),
        prog("big", "big", ("torch",), 160),
        prog("widths", "kinds", ("torch",), 700, widths=True),
        prog("folds", "fold", ("torch",), 600),
        prog("reductions", "reduce", ("torch",), 400),
        W("index_forms", "w_index:grid", 1500, backends=("torch",)),
        W("fold_forms", "w_folds:forms", 800, backends=("torch",)),
        idi(("torch",), 1200),
    ]),
    "C03": Check(RULE, [ORACLE], [
        prog("broad", "broad", ("jax",), 500),
        prog("deep", "deep", ("jax",), 60),
        prog("small", "small", ("jax",), 500),
        prog("widths", "kinds", ("jax",), 120, widths=True),
        W("index_forms", "w_index:grid", 350, backends=("jax",)),
        W("fold_forms", "w_folds:forms", 250, backends=("jax",)),
        idi(("jax",), 380),
    ]),
    "C04": Check(RULE, [ORACLE], [
        prog("broad", "broad", ("naive",), 2500),
        prog("deep", "deep", ("naive",), 600),
        prog("small", "small", ("naive",), 2500),
        prog("folds", "fold", ("naive",), 800),
        prog("widths", "kinds", ("naive",), 500, widths=True),
        W("index_forms", "w_index:grid", 1500, backends=("naive",)),
        W("fold_forms", "w_folds:forms", 1000, backends=("naive",)),
        idi(("naive",), 1200),
    ]),
    "C05": Check(RULE, [ORACLE], [
        W("index_forms", "w_index:grid", 4000, backends=FAST),
        W("index_forms_jax", "w_index:grid", 350, backends=("jax",)),
        W("tables", "w_index:tables", 330, backends=FAST),
        W("tables_jax", "w_index:tables", 110, backends=("jax",)),
        W("sized", "w_index:sized", 500, backends=FAST),
        W("sized_jax", "w_index:sized", 45, backends=("jax",)),
        prog("programs", "index", FAST, 1200),
        prog("programs_jax", "index", ("jax",), 150),
    ]),
    "C06": Check(RULE, [ORACLE], [
        W("fold_forms", "w_folds:forms", 3000, backends=FAST),
        W("fold_forms_jax", "w_folds:forms", 250, backends=("jax",)),
        prog("programs", "fold", FAST, 1000),
        prog("programs_jax", "fold", ("jax",), 120),
        W("sums", "w_folds:contractions", 1200, backends=FAST),
        W("sums_jax", "w_folds:contractions", 80, backends=("jax",)),
        W("growing", "w_folds:growing", 800, backends=FAST),
        prog("contractions", "einsum", FAST, 700),
        prog("contractions_jax", "einsum", ("jax",), 100),
    ]),
    "C07": Check(RULE, [ORACLE], [
        W("lengths", "w_reduce:lengths", 1600, backends=FAST),
        W("lengths_jax", "w_reduce:lengths", 160, backends=("jax",), longest=34),
        prog("programs", "reduce", FAST, 900),
        prog("programs_long", "reduce_long", FAST, 300),
        prog("programs_jax", "reduce", ("jax",), 120),
    ]),
    "C08": Check(RULE, [ORACLE, "for structures carried through constructs the oracle is the path and instance number encoded in every leaf"], [
        W("roundtrip", "w_records:roundtrip", 1000, backends=FAST, slow_ok=True, timeout=10),
        W("roundtrip_jax", "w_records:roundtrip", 60, backends=("jax",), slow_ok=True),
        W("mismatches", "w_records:mismatches", 1200),
        prog("programs", "records", FAST, 900),
        prog("programs_jax", "records", ("jax",), 120),
    ]),
    "C09": Check(RULE, [ORACLE, "whether a use of an index determines its size is decided by the tables of einrv/w_infer.py"], [
        W("accepted", "w_infer:accepted", 1400, backends=FAST),
        W("accepted_jax", "w_infer:accepted", 130, backends=("jax",)),
        W("rejected", "w_infer:rejected", 1200),
        W("polynomial", "w_infer:polynomial", 14, 40, timeout=40, chunk=1),
        prog("programs", "infer", FAST, 1200),
        prog("programs_jax", "infer", ("jax",), 120),
    ], technique="programs with omitted sizes executed under a shape and value oracle; acceptance monitored at build time; processor time of inference"),
    "C10": Check(RULE, [ORACLE, "options and transformations are those named in einrv/w_opts.py which the tree still has"], [
        W("options", "w_opts:staged", 280, profile="broad"),
        W("options_sharing", "w_opts:staged", 160, profile="sharing"),
        W("options_index", "w_opts:staged", 180, profile="index"),
        W("options_einsum", "w_opts:staged", 160, profile="einsum"),
        W("options_sums", "w_opts:staged", 160, profile="contractions"),
        W("options_fold", "w_opts:staged", 140, profile="fold"),
        W("options_records", "w_opts:staged", 100, profile="records"),
        W("chains", "w_opts:transformed", 240, profile="broad"),
        W("chains_sharing", "w_opts:transformed", 280, profile="sharing"),
        W("chains_records", "w_opts:transformed", 140, profile="records"),
        W("unshared", "w_opts:unshared", 320, profile="sharing"),
    ], technique="generated programs executed under random combinations of compiler options and chains of transformations, against the pointwise oracle"),
    "C11": Check(RULE, [ORACLE, "a mutant replaces one operand of a well-typed program by one of a kind or rank which the documented signature of that operation excludes"], [
        W("mutants", "w_types:mutants", 900, profile="broad"),
        W("mutants_fold", "w_types:mutants", 300, profile="fold"),
        W("mutants_reduce", "w_types:mutants", 300, profile="reduce"),
        W("mutants_scalars", "w_types:mutants", 400, profile="scalars"),
        W("mutants_index", "w_types:mutants", 300, profile="index"),
        W("table", "w_types:table", 420, 1500),
        W("static", "w_types:static", 800, profile="broad"),
        prog("widths", "kinds", FAST, 700, widths=True),
        prog("widths_fold", "fold", FAST, 300, widths=True),
        prog("widths_jax", "kinds", ("jax",), 100, widths=True),
    ], technique="ill-typed mutants of generated programs and a table of ill-typed calls, monitored for acceptance; kind and rank of observed results against the static type"),
    "C12": Check(RULE, [ORACLE, "an array or tensor is watched through its shape, strides, dtype, address, flags, contents and the memory of its base"], [
        W("programs", "w_pure:programs", 400, profile="broad", backends=FAST),
        W("programs_small", "w_pure:programs", 400, profile="small", backends=FAST),
        W("programs_fold", "w_pure:programs", 150, profile="fold", backends=FAST),
        W("programs_index", "w_pure:programs", 180, profile="index", backends=FAST),
        W("programs_jax", "w_pure:programs", 80, profile="broad", backends=("jax",)),
        W("failing", "w_pure:programs", 250, profile="exts", backends=FAST),
        W("aliases", "w_pure:aliases", 500, backends=("numpy", "numpy", "torch")),
        W("stopped", "w_pure:stopped_programs", 150, profile="small", backends=FAST),
        W("stopped_broad", "w_pure:stopped_programs", 60, profile="broad", backends=FAST),
        W("stopped_idioms", "w_pure:stopped_idioms", 180, backends=("numpy", "torch", "naive")),
        W("idioms", "w_pure:idioms", 420, backends=FAST),
        W("idioms_jax", "w_pure:idioms", 60, backends=("jax",)),
    ], technique="snapshots of all inputs, constants, environments, results and process state around every build, evaluation, repeated evaluation and injected failure"),
    "C13": Check(RULE, [ORACLE, "expected results are computed afresh for every call by the eager shadow"], [
        W("polymorphic", "w_staged:polymorphic", 1400),
        W("polymorphic_jax", "w_staged:polymorphic", 40, jax=0.5, steps=8),
        W("idioms", "w_staged:idioms", 900),
        W("idioms_jax", "w_staged:idioms", 30, jax=0.5),
        W("positions", "w_staged:positions", 200),
        W("stopped", "w_pure:stopped_idioms", 180, backends=("numpy", "torch"), modes=("function",)),
    ], technique="recorded histories of calls, including failing ones, against a call-by-call oracle without state"),
    "C14": Check("a case counts once per distinct recorded interleaving: the sequence of threads that gave up the processor inside of Ein, with at least two threads in it",
                 [ORACLE, "schedules are those which yields injected at calls, lines and instructions inside of Ein and a short switch interval produce; all threads run under one interpreter lock"], [
        W("functions", "w_threads:functions", 200),
        W("functions_busy", "w_threads:functions", 80, rate=0.15),
        W("functions_free", "w_threads:functions", 120, rate=0.0),
        W("hot_lines", "w_threads:hot", 300),
        W("hot_instructions", "w_threads:hot", 200, at="instructions", rate=0.03),
        W("hot_calls", "w_threads:hot", 100, at="calls", rate=0.3),
        W("programs", "w_threads:programs", 110, profile="broad"),
        W("programs_busy", "w_threads:programs", 50, profile="small", rate=0.15),
        W("programs_sharing", "w_threads:programs", 50, profile="sharing"),
        W("programs_fold", "w_threads:programs", 50, profile="fold"),
        W("programs_free", "w_threads:programs", 50, profile="broad", rate=0.0),
        W("printing", "w_threads:printing", 80),
    ], technique="threads sharing functions, programs, environments and arrays, with yields injected inside of Ein; every result against the oracle; distinct interleavings recorded"),
    "C15": Check("a case counts once per distinct operator, form of use, backend and batch of operands (or distinct expression) executed and judged",
                 ["the oracle is Python arithmetic and IEEE 754 as in einrv/w_scalars.py; division, powers and transcendental functions are compared to the accuracy stated there",
                  "excluded: modulo by zero, integer results outside of 64 bits, divisors so small or large that their reciprocal is not a normal number, sines of more than 1e15"], [
        W("ops_numpy", "w_scalars:ops", 1800, backends=("numpy",)),
        W("ops_torch", "w_scalars:ops", 1800, backends=("torch",)),
        W("ops_naive", "w_scalars:ops", 1800, backends=("naive",)),
        W("ops_jax", "w_scalars:ops", 450, backends=("jax",), forms=("vectors", "left", "wrapped", "right", "scalars", "folded")),
        W("trees", "w_scalars:trees", 3200, backends=FAST),
        W("trees_jax", "w_scalars:trees", 120, backends=("jax",)),
        prog("programs", "scalars", FAST, 500),
    ], technique="every operator in every form of use executed on special and random operands, and expressions of them, judged against IEEE arithmetic"),
    "C16": Check(RULE, [ORACLE, "external functions are those of einrv/w_ext.py, which work on trailing axes and broadcast over leading ones"], [
        W("applications", "w_ext:applications", 1500, backends=FAST),
        W("applications_jax", "w_ext:applications", 240, backends=("jax",)),
        W("recorded", "w_ext:recorded", 1200, backends=FAST),
        W("signatures", "w_ext:signatures", 1200),
        W("callables", "w_ext:callables", 480, backends=FAST),
        W("callables_jax", "w_ext:callables", 40, backends=("jax",)),
        prog("programs", "exts", FAST, 900),
        prog("programs_jax", "exts", ("jax",), 120),
    ], technique="external functions that record their operands, in every context, on the real backends; results and recorded operands against the pointwise oracle"),
    "C17": Check(RULE, [ORACLE, "derivatives are central differences of the oracle in the weighted sum of all elements, used only where one-sided and finer differences agree"], [
        W("idioms_torch", "w_grad:idioms", 700, backend="torch"),
        W("programs_torch", "w_grad:programs", 500, backend="torch", profile="broad"),
        W("programs_torch_fold", "w_grad:programs", 300, backend="torch", profile="fold"),
        W("programs_torch_einsum", "w_grad:programs", 200, backend="torch", profile="einsum"),
        W("programs_torch_index", "w_grad:programs", 200, backend="torch", profile="index"),
        W("programs_torch_reduce", "w_grad:programs", 150, backend="torch", profile="reduce"),
        W("programs_torch_scalars", "w_grad:programs", 200, backend="torch", profile="scalars"),
        W("idioms_jax", "w_grad:idioms", 200, backend="jax"),
        W("programs_jax", "w_grad:programs", 160, backend="jax", profile="broad"),
        W("programs_jax_fold", "w_grad:programs", 60, backend="jax", profile="fold"),
        W("programs_jax_index", "w_grad:programs", 60, backend="jax", profile="index"),
    ], technique="autograd and jax.grad of real evaluations, judged against differences of the pointwise oracle"),
    "C18": Check(RULE, [ORACLE, "calls are counted on the NumPy and Torch backends (JAX calls functions while tracing); copies built separately count as one where they contain no binder"], [
        W("counts", "w_share:counts", 1200, backends=("numpy", "torch")),
        W("counts_copies", "w_share:counts", 500, backends=("numpy", "torch"), memo=False),
        W("near_copies", "w_share:near_copies", 600, backends=FAST, profile="broad"),
        W("near_copies_fold", "w_share:near_copies", 300, backends=("numpy", "torch"), profile="fold"),
        W("near_copies_sharing", "w_share:near_copies", 300, backends=("numpy", "torch"), profile="sharing"),
        W("near_copies_jax", "w_share:near_copies", 60, backends=("jax",), profile="broad"),
        W("constants", "w_share:constants", 900, backends=FAST),
        W("constants_jax", "w_share:constants", 90, backends=("jax",)),
        W("callables", "w_ext:callables", 240, backends=FAST),
        W("refilled", "w_share:refilled", 300, backends=FAST),
        W("refilled_jax", "w_share:refilled", 40, backends=("jax",)),
        W("time", "w_share:sharing_time", 30, backends=("numpy", "torch"), thorough=30, chunk=1, timeout=40),
        W("time_jax", "w_share:sharing_time", 30, backends=("jax",), thorough=30, chunk=1, timeout=40),
    ], technique="external functions that count their calls against the count of one evaluation per scope; values of nearly equal parts of one program against the pointwise oracle; processor time of programs with exponential sharing"),
    "C19": Check(RULE, ["memory is what tracemalloc sees, which includes the data of NumPy arrays", "the bound is 8 times the bytes of inputs and result and 3 MB, at sizes where all iterations take at least twice the bound"], [
        W("folds", "w_memory:folds", 720),
        W("folds_large", "w_memory:folds", 24, thorough=300, timeout=60, sizes=((300, 300, 400), (500, 200, 300), (100, 700, 500))),
        W("kernels", "w_memory:kernels", 126),
    ], technique="traced peak of allocations of real evaluations against a bound in the sizes of inputs and result"),
    "C20": Check(RULE, [ORACLE, "a program depends on an input when the oracle gives another value for another input; such inputs have to be shown"], [
        W("programs", "w_print:programs", 500, profile="broad"),
        W("programs_sharing", "w_print:programs", 200, profile="sharing"),
        W("programs_records", "w_print:programs", 250, profile="records"),
        W("programs_exts", "w_print:programs", 150, profile="exts"),
        W("programs_reduce", "w_print:programs", 150, profile="reduce"),
        W("programs_index", "w_print:programs", 150, profile="index"),
        W("idioms", "w_print:idioms", 240),
        W("nesting", "w_print:nesting", 48, 96, timeout=30, chunk=2),
        W("constants", "w_print:constants", 300),
        W("saved", "w_print:saved", 48, 300),
    ], technique="programs printed and drawn under watch of standard output, texts searched for the inputs and constants the oracle shows the value depends on, values compared before and after"),
}

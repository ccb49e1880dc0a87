"""Writes known_findings.json: defects found by the checks; 'fixed' entries suppress nothing."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # subject prefix of the fix commit -> property
    "constants refilled": "C18",
    "raising a scalar": "C15", "tanh of": "C15", "fold compares the layout": "C08", "dict records": "C08", "size inference visits": "C09",
    "NumPy edge padding": "C05", "NumPy backend accepts arrays": "C01", "indexing an empty axis": "C05", "Torch edge padding": "C05",
    "Torch gathers": "C02", "naive folds": "C04", "naive empty": "C04", "minimum and maximum folds": "C06", "JAX backend no longer prints": "C12",
    "sums of terms independent": "C06", "NumPy temporaries": "C11", "shifted and clipped": "C05", "fold accumulators depend": "C06",
    "record components are repeated": "C08", "indices reaching": "C05", "reductions may be initialised": "C06", "reductions align": "C07",
    "abandoned einsum": "C06", "sums of contractions": "C06", "symbols bound by copies": "C10", "folds using the accumulator": "C06", "comprehensions and reductions of a negative": "C01",
    "JAX gathers": "C03", "JAX lookups by": "C05", "JAX sizes may": "C03", "JAX sizes are": "C03", "JAX slices": "C03", "NumPy interpretation does not": "C12",
    "pretty-printing keeps": "C20", "Torch contractions of operands": "C02", "comparing copies": "C18", "Torch evaluation accepts arrays with negative": "C02",
    "Torch contractions of empty": "C02", "programs with tensors": "C20", "sizes given as tensors": "C02", "tensors of 8-bit": "C02",
    "Torch indexing accepts": "C02", "JAX folds whose": "C03", "matrices (and": "C08", "size inference is not": "C09", "Torch transposes": "C10", "outlining programs": "C10", "only integers": "C11",
    "absolute value": "C15", "loop-invariant code": "C18", "pretty-printing": "C20", "saving a graph": "C20", "graphs of programs": "C20",
}
EXTRA = os.path.join(V, "tools", "findings_extra.json")
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
extra = json.load(open(EXTRA)) if os.path.exists(EXTRA) else {"map": {}, "known": []}
PROP.update(extra["map"])
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = next((v for k, v in PROP.items() if s.startswith(k)), None)
    assert p, s
    out.append(dict(property=p, status="fixed", what=f"fixed: property={p} {h} {s}"))
json.dump(dict(findings=extra["known"] + out), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out), "fixed,", len(extra["known"]), "known")

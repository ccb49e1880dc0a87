"""Named program distributions."""
from __future__ import annotations

from .gen import Profile
from .lang import nd

SMALL = (0, 1, 2, 2, 3, 3, 4, 5)


def P(name, **k):
    return Profile(name=name, **k)


def _vec_top(g):
    return nd([g.dim() for _ in range(g.r.choice([1, 1, 2, 2, 3]))], g.stype())


def _float_top(g):
    return nd([g.dim() for _ in range(g.r.choice([0, 1, 1, 2]))], "g" if g.inexact else "f")


PROFILES = {p.name: p for p in [
    P("broad"),
    P("small", budget=(1, 5), ranks=(0, 4)),
    P("deep", budget=(14, 26)),
    P("big", budget=(2, 6), dims=(1, 7, 13, 17, 33, 40), ranks=(1, 2), max_work=150000),
    P("huge", budget=(1, 4), dims=(1, 3, 1100, 1500), ranks=(1, 1), in_ranks=(0, 1, 1), max_work=120000,
      w=dict(countersum=0, slice=0, vrec=0, recfield=0, vreduce=0, einsum=0)),
    P("index", budget=(2, 9), ranks=(1, 3), dims=(0, 1, 1, 2, 3, 4, 5, 6, 8),
      w=dict(shift=6.0, clip=5.0, iarb=2.5, lookup=2.5, imod=1.0, ilit=1.5, direct=2.5, getx=2.5, slice=1.0, or_empty=0.8,
             un=0.7, bin=2.5, cmp=0.5, reduce=0.4, recfield=0.3, atom=5.0)),
    P("fold", budget=(4, 13), neg_count=0.15,
      w=dict(fold=4.0, vfold=4.0, sum=3.0, argmin=1.0, einsum=2.0, recfield=1.2, vrec=1.5, countersum=0.4, reduce=0.3, concat=0.5)),
    P("einsum", budget=(2, 8), tys="fffg", inexact=0.4, w=dict(einsum=8.0, sum=3.0, fold=0.8, bin=4.0, let=1.5, vlet=1.5)),
    P("reduce", budget=(3, 11), w=dict(reduce=6.0, vreduce=6.0, recfield=0.6, fold=0.8, vfold=0.5)),
    P("records", budget=(4, 13), w=dict(recfield=5.0, vrec=6.0, wheres=2.0, reduce=2.0, let=2.0, vlet=2.0, concat=1.5, getx=1.5)),
    P("infer", budget=(3, 12), infer=0.97, dyn=0.0,
      w=dict(varray=8.0, sum=2.5, fold=2.0, getx=2.0, vrec=1.2, recfield=1.2, size=1.5, concat=1.4, colon=0.8, slice=0.8, vlet=1.2)),
    P("sharing", budget=(6, 16), w=dict(let=4.0, vlet=4.0, fold=1.6, vfold=1.2, sum=2.0, ext=1.0)),
    P("exts", budget=(3, 12), w=dict(ext=4.0, fold=1.8, reduce=1.0, let=1.6, vlet=1.2, recfield=1.0)),
    P("scalars", budget=(4, 16), ranks=(0, 1), inexact=0.5,
      w=dict(bin=8, un=4, cmp=3, logic=3, where=3, fold=0.2, sum=0.2, reduce=0.1, einsum=0.1, argmin=0.1, getx=0.2, recfield=0.1, countersum=0)),
    P("kinds", budget=(2, 10), ranks=(0, 3), inexact=0.0, top=None),
]}
PROFILES["reduce_long"] = P("reduce_long", budget=(2, 6), dims=(0, 1, 5, 9, 13, 16, 21, 33, 40), ranks=(0, 1), in_ranks=(1, 1, 2),
                            max_work=150000, w=dict(reduce=8.0, vreduce=4.0, recfield=0.6, fold=0.3, vfold=0.2, countersum=0))

"""Helpers shared by the checks."""
from __future__ import annotations

from sa.engine import AnalysisBroken, Engine, Pruned, PyExc, Undecided, Violation  # noqa: F401
from sa.values import *  # noqa: F403

PLAIN = ("numba", "polars")
NUMBA = ("polars",)


def engine(repo, unavailable=PLAIN, tbb=True, hooks=None, modules=None):
    eng = Engine(repo, unavailable=unavailable, hooks=hooks)
    eng.tbb = tbb
    if modules:
        for m in modules:
            if eng.load(m) is None:
                raise AnalysisBroken(f"module {m} is missing")
    else:
        eng.load_all()
    eng.snapshot()
    return eng


def collect(rep, rule, eng, res, name=None, escaped=None):
    """Move violations (and exceptions nobody expected) of an exploration into the report."""
    rep.engine(eng, res)
    for v in res.violations:
        rep.bad(rule, name or fn_of(v.loc), v.msg, v.loc, v.trace)
    for val, loc, trace in res.escaped:
        where = val.where or loc
        if escaped is None:
            s = f"{rep.show_loc(where)}: {val!r} escapes"
            if s not in rep.undecided:
                rep.undecided.append(s)
        else:
            rep.bad(rule, name or fn_of(where), escaped.format(exc=repr(val)), where, trace)


def fn_of(loc):
    return loc[2] if loc else "?"

"""A small domain of linear integer inequalities (each is ``expr >= 0``), decided by elimination."""
from __future__ import annotations

from functools import reduce
from math import floor, gcd

from .values import Aff, aff_add, aff_scale

LIMIT = 400


def tighten(a):
    """Divide by the common divisor of coefficients and round the constant down (integers only)."""
    if not a.c:
        return a
    g = reduce(gcd, (abs(int(v)) for v in a.c.values()))
    if g > 1:
        return Aff({t: int(v) // g for t, v in a.c.items()}, floor(a.k / g) if a.k % g else a.k // g)
    return a


_cache: dict = {}


def feasible(cons):
    """False only if no integers satisfy all of the inequalities."""
    cons = frozenset(tighten(c) for c in cons)
    r = _cache.get(cons)
    if r is None:
        if len(_cache) > 30_000:
            _cache.clear()
        r = _cache[cons] = _feasible(cons)
    return r


def _feasible(cons):
    cons = set(cons)
    while True:
        new = {}
        for c in cons:
            if not c.c:
                if c.k < 0:
                    return False
                continue
            key = frozenset(c.c.items())
            if key not in new or new[key] > c.k:
                new[key] = c.k
        cons = {Aff(dict(k), v) for k, v in new.items()}
        for c in cons:
            neg = frozenset((t, -v) for t, v in c.c.items())
            if neg in new and new[neg] + c.k < 0:
                return False
        if not cons:
            return True
        if len(cons) > LIMIT:
            return True
        occ: dict = {}
        for c in cons:
            for t, v in c.c.items():
                p = occ.setdefault(t, [0, 0])
                p[v < 0] += 1
        var = min(occ, key=lambda t: (occ[t][0] * occ[t][1] - occ[t][0] - occ[t][1], repr(t)))
        pos = [c for c in cons if c.c.get(var, 0) > 0]
        neg = [c for c in cons if c.c.get(var, 0) < 0]
        rest = {c for c in cons if var not in c.c}
        for p in pos:
            for n in neg:
                a, b = p.c[var], -n.c[var]
                rest.add(tighten(aff_add(aff_scale(p, b), aff_scale(n, a))))
        cons = rest


def relevant(facts, goal):
    """Inequalities connected with the goal by common terms."""
    vars_ = set(goal.c)
    pool = list(facts)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f in pool:
            if not f.c or vars_ & f.c.keys():
                out.append(f)
                if not f.c.keys() <= vars_:
                    vars_ |= f.c.keys()
                    changed = True
            else:
                rest.append(f)
        pool = rest
    return out


def consistent_with(facts, goal):
    """Whether ``goal >= 0`` is possible under the facts."""
    return feasible([*relevant(facts, goal), goal])

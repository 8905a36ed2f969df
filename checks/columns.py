"""Columns of the package in the domain of exact numbers: engines and helpers of the checks of values."""
from __future__ import annotations

from fractions import Fraction as F

from sa import arrays as A
from sa import nb
from sa import num as N
from sa.arrays import Arr, ChunkedV, PaArr, PaT, TableV, W
from sa.bits import BitsV, BitSym, ByteStr
from sa.engine import ExtV
from sa.lib import Lib
from sa.num import FSym, Num
from sa.values import *  # noqa: F403
from sa.values import DictV, ListV, Term

from .common import NUMBA, PLAIN, AnalysisBroken, Engine, PyExc, Undecided, Violation

POLARS = ("numba",)
# what is installed, and whether the accelerator can run in parallel
MODES = (("plain", PLAIN, False), ("accelerated", NUMBA, False), ("accelerated, parallel", NUMBA, True))
CHUNK = ("rxls.constants", "rxls.core", "rxls.chunk.arrow", "rxls.chunk.casts", "rxls.chunk.chunk")
SERIES = (*CHUNK, "rxls.cell", "rxls.series")


def build(repo, unavailable=PLAIN, tbb=False, modules=None, models=None, hooks=None):
    lib = Lib()
    A.install(lib.calls)
    nb.install(lib.calls)
    eng = Engine(repo, unavailable=unavailable, lib=lib, hooks=hooks)
    eng.tbb = tbb
    for m in modules or ():
        if eng.load(m) is None:
            raise AnalysisBroken(f"module {m} is missing")
    if modules is None:
        eng.load_all()
    eng.snapshot()
    if models:
        models(eng)
        A.install(eng.lib.calls)
        nb.install(eng.lib.calls)
    eng.step_limit = 400_000
    eng.numbers = True
    return eng


def code(sym):
    """The bytes of a number in the file."""
    return ByteStr(sym.eng, [BitsV(sym.eng, [(sym, 8 * i + j) for j in range(8)]) for i in range(sym.width // 8)])


def double(eng, name, x):
    """The bytes of a double that stands for a number."""
    s = BitSym(eng, name, 64)
    A.doubles(eng)[s] = x
    return code(s)


def number_text(eng, name, x):
    """A text of the file that denotes a number (None: that denotes none)."""
    if isinstance(x, (int, float)):
        return repr(x)
    t = sym(name, "str")
    if x is not None:
        eng.path.data.setdefault("numbers", {})[ckey(t)] = x
    return t


def agree(eng, got, want, what, tie=F(0)):
    """A result is the number it should be."""
    ok, ex = N.same(eng, got, want, tie)
    if ok is None:
        raise Undecided(f"{what}: whether {got!r} is {want!r}")
    if not ok:
        raise Violation(f"{what} is {show(got)} instead of {show(want)}" + (f", e.g. for {ex}" if ex else ""))


def show(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


_ = (Arr, ChunkedV, PaArr, PaT, TableV, W, ExtV, FSym, Num, Term, DictV, ListV, PyExc)

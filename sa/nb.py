"""Numba as the package uses it: declared signatures, compiled functions, generalised ufuncs."""
from __future__ import annotations

from .arrays import LONG, NAMES, SIZE, Arr, PaArr, convert, is_float, is_int
from .bits import BitsV
from .engine import Undecided, Violation
from .num import Num
from .values import *  # noqa: F403
from .values import AbsVal, BoundV, Builtin, ExtV, FuncV, ListV

MORE = {"boolean": "b1", "bool_": "b1", "b1": "b1", "double": "f8", "float_": "f8", "intp": "i8", "uintp": "u8", "int_": "i8"}


def base(v):
    """The element type a numba type stands for."""
    if isinstance(v, ExtV) and v.name.startswith("numba."):
        n = v.name.rpartition(".")[2]
        return MORE.get(n) or NAMES.get(n) or (n if n in SIZE else None)
    return None


class NbArr(AbsVal):
    """An array type."""

    __slots__ = ("d", "mutable")
    kind = "ext"

    def __init__(self, d, mutable=True):
        self.d, self.mutable = d, mutable

    def v_truth(self, eng):
        return True

    def v_call(self, eng, args, kw):
        return Sig(self, list(args))

    def __repr__(self):
        return f"array({LONG[self.d]})"


class Sig(AbsVal):
    """A signature: the types of the arguments and of the result."""

    __slots__ = ("args", "ret")
    kind = "ext"

    def __init__(self, ret, args):
        self.ret, self.args = ret, args

    def v_truth(self, eng):
        return True


def array_type(eng, args, kw):
    d = base(args[0]) if args else None
    if d is None:
        return ExtV("numba.types.Array of another type")
    ro = args[3] if len(args) > 3 else kw.get("readonly", False)
    return NbArr(d, not ro)


def simple(s):
    """Whether a signature is one over arrays and numbers."""
    return isinstance(s, Sig) and all(isinstance(t, NbArr) or base(t) for t in (*s.args, s.ret) if t is not None)


def signatures(v):
    vs = v.items if isinstance(v, ListV) else list(v) if isinstance(v, (tuple, list)) else [v]
    return vs if vs and all(simple(s) for s in vs) else None


# ------------------------------------------------------------------ functions


def fits(a, t):
    """Whether an argument has the type a compiled function declares."""
    if isinstance(t, NbArr):
        return isinstance(a, Arr) and a.d == t.d and a.contiguous() and not (t.mutable and a.ro)
    return not isinstance(a, (Arr, PaArr, str, bytes, ListV))


def compiled(fn, sigs):
    def run(eng, a, k):
        if k:
            raise Undecided("keyword arguments of a compiled function")
        s = next((s for s in sigs if len(s.args) == len(a) and all(map(fits, a, s.args))), None)
        if s is None:
            eng.throw(TypeError, f"No matching definition for argument types {[kind_of(x) for x in a]}")
        r = eng.call(fn, list(a), {})
        if isinstance(s.ret, NbArr) and not (isinstance(r, Arr) and r.d == s.ret.d):
            eng.throw(TypeError, f"the compiled function is declared to return {s.ret!r} and returns {kind_of(r)}")
        return r

    f = Builtin(fn.name if hasattr(fn, "name") else "compiled", run)
    return f


def kind_of(v):
    if isinstance(v, Arr):
        return ("" if v.contiguous() else "non-contiguous ") + ("read-only " if v.ro else "") + f"array({LONG[v.d]})"
    return type(v).__name__


def njit(eng, args, kw):
    sigs = signatures(args[0]) if args and not isinstance(args[0], (FuncV, BoundV, Builtin)) else None

    def mark(f):
        if isinstance(f, FuncV):
            f.attrs["__numba__"] = True
            if kw.get("boundscheck") is not True:
                eng.unchecked.add(f.qualname)
        return compiled(f, sigs) if sigs else f

    if args and isinstance(args[0], (FuncV, BoundV, Builtin)):
        return mark(args[0])
    return Builtin("njit", lambda e, a, k: mark(a[0]))


# ------------------------------------------------------------------ generalised ufuncs


def safe(a, b):
    """numpy.can_cast(a, b, "safe")"""
    if a == b:
        return True
    if a == "b1":
        return True
    if is_int(a):
        if is_float(b):
            return SIZE[b] > SIZE[a] or SIZE[b] == 8
        if a[0] == "u":
            return is_int(b) and SIZE[b] > SIZE[a]
        return b[0] == "i" and SIZE[b] > SIZE[a]
    return is_float(a) and is_float(b) and SIZE[b] > SIZE[a]


def guvectorize(eng, args, kw):
    sigs = signatures(args[0]) if args else None
    layout = args[1] if len(args) > 1 else kw.get("signature")
    if sigs is None or not isinstance(layout, str):
        return Builtin("guvectorize", lambda e, a, k: Builtin("gufunc", lambda e2, a2, k2: unknown()))
    left, _, right = (x.replace(" ", "") for x in layout.partition("->"))
    if any(x != "(n)" for x in (*left.split(")("), right) if x.strip("()") not in ("n", "")):
        return Builtin("guvectorize", lambda e, a, k: Builtin("gufunc", lambda e2, a2, k2: unknown()))
    n_in = left.count("(")

    def deco(e, a, k):
        fn = a[0]

        def run(e2, a2, k2):
            given = k2.get("out") or (a2[n_in] if len(a2) > n_in else None)
            ins = a2[:n_in]
            if not all(isinstance(x, Arr) for x in ins):
                raise Undecided("arguments of a generalised ufunc")
            if len({len(x) for x in ins}) > 1:
                e2.throw(ValueError, "operands have a mismatch in their core dimension")
            s = next((s for s in sigs if all(isinstance(t, NbArr) and safe(x.d, t.d) for x, t in zip(ins, s.args))), None)
            if s is None or len(s.args) != n_in + 1:
                e2.throw(TypeError, f"ufunc is not supported for the input types {[kind_of(x) for x in ins]}")
            ins = [x if x.d == t.d else Arr(t.d, [convert(e2, v, x.d, t.d) for v in x.items(e2)]) for x, t in zip(ins, s.args)]
            d = s.args[-1].d
            out = given if isinstance(given, Arr) and given.d == d else Arr(d, [UNSET] * len(ins[0]))
            e2.call(fn, [*ins, out], {})
            if any(v is UNSET for v in out.buf.elems):
                raise Violation("a generalised ufunc leaves a part of its output unwritten")
            if isinstance(given, Arr) and given is not out:
                for i in range(len(given)):
                    given.set(e2, i, convert(e2, out.get(e2, i), d, given.d))
                return given
            return out

        return Builtin("gufunc", run)

    return Builtin("guvectorize", deco)


def unknown():
    raise Undecided("a generalised ufunc of unknown signature")


class Unset(AbsVal):
    kind = "unset"

    def v_truth(self, eng):
        raise Undecided("an unwritten element")


UNSET = Unset()


def install(c):
    for n in ("njit", "jit"):
        c["numba." + n] = njit
    c["numba.guvectorize"] = guvectorize
    for p in ("numba.types.", "numba.", "numba.core.types."):
        c[p + "Array"] = array_type
    for n in {*MORE, *NAMES, *SIZE, "void", "none"}:
        for p in ("numba.", "numba.types."):
            c[p + n] = (lambda t: lambda e, a, k: Sig(None if t.rpartition(".")[2] in ("void", "none") else ExtV(t), list(a)))(p + n)


_ = (BitsV, Num)

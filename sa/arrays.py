"""Models of numpy arrays and of pyarrow arrays, types and kernels over abstract elements."""
from __future__ import annotations

import math
import re as _re
import re._parser as _sre
import struct as _struct
from fractions import Fraction

from . import num as N
from .bits import BitsV, ByteStr, Seg, lift, to_bytestr
from .engine import EXT_EXC_BASE, ExtV, Undecided
from .lib import LibObj
from .num import Junk, Num
from .values import *  # noqa: F403
from .values import AbsVal, Aff, Builtin, DictV, IterV, ListV, Term, is_conc, short

EXT_EXC_BASE.update({
    "pyarrow.ArrowTypeError": TypeError,
    "pyarrow.lib.ArrowTypeError": TypeError,
    "pyarrow.lib.ArrowNotImplementedError": NotImplementedError,
    "pyarrow.lib.ArrowException": Exception,
})

NAMES = {
    "float64": "f8", "double": "f8", "float_": "f8", "float32": "f4", "single": "f4", "int64": "i8", "int_": "i8", "intp": "i8",
    "longlong": "i8", "int32": "i4", "intc": "i4", "int16": "i2", "int8": "i1", "uint64": "u8", "uintp": "u8", "uint32": "u4",
    "uintc": "u4", "uint16": "u2", "uint8": "u1", "ubyte": "u1", "bool_": "b1", "bool8": "b1", "bool": "b1", "object_": "O",
    "object": "O", "float": "f8", "int": "i8", "datetime64[ms]": "M8",
}
SIZE = {"f8": 8, "f4": 4, "i8": 8, "i4": 4, "i2": 2, "i1": 1, "u8": 8, "u4": 4, "u2": 2, "u1": 1, "b1": 1, "O": 8, "M8": 8}
LONG = {v: k for k, v in reversed(NAMES.items())} | {"f8": "float64", "i8": "int64", "b1": "bool", "u8": "uint64", "O": "object"}


class DT(AbsVal):
    """numpy.dtype"""

    __slots__ = ("n",)
    kind = "dtype"

    def __init__(self, n):
        self.n = n

    def v_key(self):
        return ("dtype", self.n)

    def v_truth(self, eng):
        return True

    def v_compare(self, eng, op, o, rev):
        if op in ("Eq", "NotEq"):
            d = dtype_of(eng, o, False)
            return (d == self.n) == (op == "Eq")
        return NotImplemented

    def v_call(self, eng, args, kw):
        return scalar(eng, self.n, args)

    def v_getattr(self, eng, name):
        if name == "itemsize":
            return SIZE[self.n]
        if name == "kind":
            return self.n[0]
        if name == "name":
            return LONG[self.n]
        if name in ("type", "newbyteorder"):
            return self
        if name == "char":
            return {"f8": "d", "i8": "l", "u4": "I", "b1": "?"}.get(self.n, self.n)
        raise Undecided(f"dtype.{name}")

    def __repr__(self):
        return f"dtype({LONG[self.n]})"


def dtype_of(eng, d, must=True):
    if isinstance(d, DT):
        return d.n
    if isinstance(d, ExtV) and d.name.startswith("numpy."):
        r = NAMES.get(d.name.rpartition(".")[2])
        if r:
            return r
    if d is float:
        return "f8"
    if d is int:
        return "i8"
    if d is bool:
        return "b1"
    if d is object:
        return "O"
    if isinstance(d, str):
        r = NAMES.get(d) or (d.lstrip("<=|") if d.lstrip("<=|") in SIZE else None)
        r = r or {"d": "f8", "I": "u4", "?": "b1", "B": "u1", "q": "i8", "Q": "u8", "i": "i4", "<M8[ms]": "M8"}.get(d)
        if r:
            return r
    if must:
        raise Undecided(f"dtype {short(d)}")
    return None


def is_float(d):
    return d[0] == "f"


def is_int(d):
    return d[0] in "iu"


def wrap(v, d):
    """Known integer as stored in a fixed width."""
    w = 8 * SIZE[d]
    v &= (1 << w) - 1
    if d[0] == "i" and v >> (w - 1):
        v -= 1 << w
    return v


class W(AbsVal):
    """A fixed-width integer with unknown bits (least significant first)."""

    __slots__ = ("bits",)
    kind = "int"

    def __init__(self, bits):
        self.bits = tuple(bits)

    def res(self):
        return tuple(N.known(b) for b in self.bits)

    def v_key(self):
        return ("word", tuple(b if b in (0, 1) else (id(b[0]), b[1]) for b in self.bits))

    def v_truth(self, eng):
        return not W.zero(self, eng)

    def zero(self, eng):
        return BitsV(eng, self.bits).decide_eq(0)

    def __repr__(self):
        return repr(BitsV(None, self.bits))


def word(eng, bits, d):
    bits = [N.known(b) for b in bits]
    if all(b in (0, 1) for b in bits):
        return wrap(sum(b << i for i, b in enumerate(bits)), d)
    return W(bits)


def bits_of(eng, v, d):
    """Bit list of an integer element."""
    w = 8 * SIZE[d]
    v = norm(eng, v, d)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return [(v >> i) & 1 for i in range(w)]
    if isinstance(v, W):
        return list(v.bits)
    if isinstance(v, (BitsV, Term, Aff)):
        b = lift(eng, v)
        if b is not None:
            return [b.res(i) for i in range(w)]
    raise Undecided(f"bits of {short(v)}")


def norm(eng, v, d):
    """Element in its simplest form."""
    if isinstance(v, W):
        return word(eng, v.bits, d)
    if isinstance(v, (BitsV, Term, Aff)) and is_int(d):
        b = lift(eng, v)
        if b is not None:
            return word(eng, [b.res(i) for i in range(8 * SIZE[d])], d)
    if isinstance(v, Num):
        v = N.canon(v)
        if isinstance(v, Num):
            if is_int(d):
                return whole(v)
            if not v.c:
                return float(v.k)
        return v
    if isinstance(v, Fraction):
        return float(v)
    if is_float(d) and isinstance(v, (int, bool)):
        return float(v)
    if is_int(d) and isinstance(v, bool):
        return int(v)
    return v


def whole(v):
    """Integer of an affine form, as an int where it is known."""
    if isinstance(v, Num) and v.real:
        v = Num(v.c, v.k)
    return N.plain(v)


def as_num(eng, v, d):
    """Element as an exact number (Num) or a float that is not finite."""
    v = norm(eng, v, d)
    if isinstance(v, W):
        return N.from_bits(v.bits, d[0] == "i")
    x = N.num(v)
    if x is not None:
        return x
    if isinstance(v, float):
        return v
    if isinstance(v, (Term, Aff, BitsV)):
        b = lift(eng, v)
        if b is not None:
            return N.from_bits(b.resolved())
    raise Undecided(f"number of {short(v)}")


def truth(eng, v, d):
    v = norm(eng, v, d)
    if isinstance(v, W):
        return v.v_truth(eng)
    return eng.truth(v)


def convert(eng, v, a, b):
    """astype of one element."""
    v = norm(eng, v, a)
    if a == b or b == "O":
        return v
    if b == "b1":
        return truth(eng, v, a)
    if a == "O":
        if v is None:
            return math.nan if is_float(b) else eng.throw(TypeError, "NoneType")
        if isinstance(v, bool):
            a = "b1"
        elif eng.kindof(v) in ("str", "bytes"):
            return parse(eng, v, b)
        else:
            a = "f8"
    if is_float(b):
        if not isinstance(v, float):
            v = N.plain(as_num(eng, v, a), False)
        return single(v) if b == "f4" else v
    if a == "b1":
        return int(v)
    if is_float(a):
        if isinstance(v, float):
            if not math.isfinite(v):
                return wrap(1 << (8 * SIZE[b] - 1), b)
            return wrap(int(v), b) if abs(v) < 2**63 else wrap(1 << (8 * SIZE[b] - 1), b)
        t = norm(eng, N.trunc(eng, v), b)
        return t if not isinstance(t, Num) or inside(eng, t, b) else Num({Junk("an integer wrapped around"): 1})
    # integers of different width
    if isinstance(v, int):
        return wrap(v, b)
    if isinstance(v, Num):
        return v if inside(eng, v, b) else Num({Junk("an integer wrapped around"): 1})
    bits = bits_of(eng, v, a)
    w = 8 * SIZE[b]
    ext = bits[-1] if a[0] == "i" else 0
    return word(eng, (bits + [ext] * w)[:w], b)


def inside(eng, v, d):
    """Does an integer fit?"""
    w = 8 * SIZE[d]
    bot, top = (0, (1 << w) - 1) if d[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    lo, _, hi, _ = N.bounds(v)
    if lo is not None and hi is not None and bot <= lo and hi <= top:
        return True
    if any(isinstance(s, Junk) for s in v.c):
        return True
    return N.decide_ge(eng, N.sub(v, Num({}, bot))) and N.decide_ge(eng, N.sub(Num({}, top), v))


def single(v):
    """Single precision."""
    if isinstance(v, float):
        try:
            return _struct.unpack("<f", _struct.pack("<f", v))[0]
        except OverflowError:
            return math.copysign(math.inf, v)
    if isinstance(v, Num):
        lo, _, hi, _ = N.bounds(v)
        if not (N.integral(v) and lo is not None and hi is not None and max(abs(lo), abs(hi)) <= 2**24):
            return Num({Junk("a number of single precision"): 1})
    return v


def reinterpret(eng, v, a, b):
    """The same bytes read as another type of the same width."""
    v = norm(eng, v, a)
    if a == b or {a, b} <= {"i8", "M8"}:
        return v
    if a == "b1" and b == "u1":
        return int(v)
    if a == "u1" and b == "b1":
        return truth(eng, v, a)
    if is_float(a) and is_float(b):
        return v
    if is_float(b):
        if b == "f4":
            raise Undecided("float32")
        if isinstance(v, Num):
            return Num({Junk("an integer read as a double"): 1})
        bits = bits_of(eng, v, a)
        s = BitsV(eng, bits).whole()
        if s is not None and s in doubles(eng):
            return doubles(eng)[s]
        return N.from_double(bits)
    if is_float(a):
        if isinstance(v, float):
            n = int.from_bytes(_struct.pack("<d", v), "little")
            return wrap(n, b)
        if isinstance(v, Num):
            if len(v.c) == 1 and not v.k:
                (t, c), = v.c.items()
                if isinstance(t, N.F64) and c == 1:
                    return word(eng, t.bits, b)
            for s, x in doubles(eng).items():
                if x == v:
                    return word(eng, [(s, i) for i in range(64)], b)
        return Num({Junk("a double read as an integer"): 1})
    if isinstance(v, int):
        return wrap(v, b)
    if isinstance(v, W):
        return word(eng, v.bits, b)
    return v


def doubles(eng):
    """64-bit symbols that stand for known exact numbers."""
    return eng.path.data.setdefault("doubles", {})


# ------------------------------------------------------------------ numpy arrays


class NpBool(AbsVal):
    """numpy.bool_"""

    __slots__ = ("v",)
    kind = "bool"

    def __init__(self, v):
        self.v = bool(v)

    def v_key(self):
        return ("bool", self.v)

    def v_truth(self, eng):
        return self.v

    def v_unop(self, eng, op):
        return NpBool(not self.v) if op == "Invert" else (not self.v if op == "Not" else NotImplemented)

    def v_binop(self, eng, op, o, rev):
        if isinstance(o, Arr):
            return NotImplemented
        b = o.v if isinstance(o, NpBool) else o
        if isinstance(b, bool) and op in ("BitAnd", "BitOr", "BitXor"):
            return NpBool({"BitAnd": self.v and b, "BitOr": self.v or b, "BitXor": self.v != b}[op])
        return eng.binop(op, o, int(self.v)) if rev else eng.binop(op, int(self.v), o)

    def v_compare(self, eng, op, o, rev):
        b = o.v if isinstance(o, NpBool) else o
        if op == "Eq":
            return self.v == b
        if op == "NotEq":
            return self.v != b
        return NotImplemented

    def v_isinstance(self, eng, cls):
        return isinstance(cls, ExtV) and cls.name in ("numpy.bool_", "numpy.generic")

    def v_getattr(self, eng, name):
        if name in ("item", "all", "any"):
            return Builtin(name, lambda e, a, k: self.v)
        return NotImplemented

    def __repr__(self):
        return f"np.{self.v}"


class Buf:
    """Memory of elements of one type."""

    __slots__ = ("d", "elems", "ro")

    def __init__(self, d, elems, ro=False):
        self.d, self.elems, self.ro = d, list(elems), ro


class Arr(AbsVal):
    """numpy.ndarray of one dimension: a view of a buffer."""

    __slots__ = ("buf", "d", "pos", "ro")
    kind = "ndarray"

    def __init__(self, d, elems=(), buf=None, pos=None, ro=False):
        self.d = d
        self.buf = buf if buf is not None else Buf(d, elems)
        self.pos = list(range(len(self.buf.elems))) if pos is None else pos
        self.ro = ro or self.buf.ro

    def __len__(self):
        return len(self.pos)

    def get(self, eng, i):
        v = self.buf.elems[self.pos[i]]
        return reinterpret(eng, v, self.buf.d, self.d) if self.buf.d != self.d else norm(eng, v, self.d)

    def set(self, eng, i, v):
        if self.ro:
            eng.throw(ValueError, "assignment destination is read-only")
        self.buf.elems[self.pos[i]] = reinterpret(eng, v, self.d, self.buf.d) if self.buf.d != self.d else v

    def items(self, eng):
        return [self.get(eng, i) for i in range(len(self.pos))]

    def contiguous(self):
        return all(b == a + 1 for a, b in zip(self.pos, self.pos[1:]))

    # ------------------------------------------------------------ protocol

    def v_truth(self, eng):
        if len(self) > 1:
            eng.throw(ValueError, "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(len(self)) and truth(eng, self.get(eng, 0), self.d)

    def v_len(self, eng):
        return len(self.pos)

    def v_iter(self, eng, cb):
        for i in range(len(self.pos)):
            cb(out(self.get(eng, i), self.d))
        return None

    def index(self, eng, i):
        """Positions an index denotes, or the position of an integer."""
        n = len(self.pos)
        if isinstance(i, slice):
            if not is_conc(i):
                i = slice(*(None if x is None else concrete_int(eng, x) for x in (i.start, i.stop, i.step)))
            return list(range(n))[i]
        if i is Ellipsis:
            return list(range(n))
        if isinstance(i, PaArr):
            if i.t.n != "bool":
                raise Undecided("index by an arrow array")
            eng.throw(TypeError, "only integer scalar arrays can be converted to a scalar index")
        if isinstance(i, ListV) or isinstance(i, tuple):
            i = np_array(eng, [i], {})
        if isinstance(i, Arr):
            if i.d == "b1":
                if len(i) != n:
                    eng.throw(IndexError, "boolean index did not match indexed array along dimension 0")
                return [j for j in range(n) if truth(eng, i.get(eng, j), "b1")]
            if i.d == "O":
                eng.throw(IndexError, "arrays used as indices must be of integer (or boolean) type")
            if is_float(i.d):
                eng.throw(IndexError, "arrays used as indices must be of integer (or boolean) type")
            r = []
            for v in i.items(eng):
                v = concrete_int(eng, v)
                if not -n <= v < n:
                    eng.throw(IndexError, "index out of bounds")
                r.append(v % n)
            return r
        if isinstance(i, bool):
            raise Undecided("index by a bool")
        v = concrete_int(eng, i)
        if not -n <= v < n:
            eng.throw(IndexError, f"index {v} is out of bounds for axis 0 with size {n}")
        return v % n

    def v_getitem(self, eng, i):
        p = self.index(eng, i)
        if isinstance(p, int):
            return out(self.get(eng, p), self.d)
        if isinstance(i, slice) or i is Ellipsis:
            return Arr(self.d, buf=self.buf, pos=[self.pos[j] for j in p], ro=self.ro)
        return Arr(self.d, [self.get(eng, j) for j in p])

    def v_setitem(self, eng, i, v):
        p = self.index(eng, i)
        if isinstance(p, int):
            p = [p]
        vals, d = broadcast(eng, v, len(p))
        for j, x in zip(p, vals):
            self.set(eng, j, convert(eng, x, d, self.d))
        return None

    def v_binop(self, eng, op, o, rev):
        if operand(eng, o) is None:
            return NotImplemented
        return binary(eng, op, o, self) if rev else binary(eng, op, self, o)

    def v_iaug(self, eng, op, o):
        r = binary(eng, op, self, o)
        if len(r) != len(self):
            eng.throw(ValueError, "non-broadcastable output operand")
        if is_float(r.d) and not is_float(self.d):
            eng.throw(TypeError, f"Cannot cast ufunc output from {LONG[r.d]} to {LONG[self.d]}")
        for i in range(len(self)):
            self.set(eng, i, convert(eng, r.get(eng, i), r.d, self.d))
        return self

    def v_unop(self, eng, op):
        if op == "Not":
            return not self.v_truth(eng)
        if op == "UAdd":
            return Arr(self.d, self.items(eng))
        if op == "Invert":
            if self.d == "b1":
                return Arr("b1", [not truth(eng, x, "b1") for x in self.items(eng)])
            if is_int(self.d):
                return Arr(self.d, [word(eng, [flip(b) for b in bits_of(eng, x, self.d)], self.d) for x in self.items(eng)])
            eng.throw(TypeError, "ufunc 'invert' not supported for the input types")
        if op == "USub":
            if self.d == "b1":
                eng.throw(TypeError, "The numpy boolean negative, the `-` operator, is not supported")
            return binary(eng, "Sub", 0, self)
        return NotImplemented

    def v_compare(self, eng, op, o, rev):
        if op in ("In", "NotIn", "Is", "IsNot"):
            return NotImplemented
        if operand(eng, o) is None:
            if op in ("Eq", "NotEq"):
                return Arr("b1", [op == "NotEq"] * len(self))
            return NotImplemented
        return comparison(eng, op, o, self) if rev else comparison(eng, op, self, o)

    def v_isinstance(self, eng, cls):
        return cls is object or (isinstance(cls, ExtV) and cls.name == "numpy.ndarray")

    def v_contains(self, eng, x):
        return any(comparison(eng, "Eq", self, x).items(eng))

    def v_getattr(self, eng, name):
        f = getattr(self, "m_" + name.strip("_"), None)
        if f is not None:
            return Builtin(name, f)
        if name == "dtype":
            return DT(self.d)
        if name == "size":
            return len(self)
        if name == "shape":
            return (len(self),)
        if name == "ndim":
            return 1
        if name == "itemsize":
            return SIZE[self.d]
        if name == "nbytes":
            return SIZE[self.d] * len(self)
        if name == "T":
            return self
        if name == "data":
            return BufV(self)
        if name == "flags":
            return LibObj("flags", writeable=not self.ro, c_contiguous=self.contiguous())
        raise Undecided(f"ndarray.{name}")

    def m_astype(self, eng, a, k):
        d = dtype_of(eng, a[0] if a else k["dtype"])
        if d == self.d and k.get("copy", True) is False:
            return self
        return Arr(d, [convert(eng, x, self.d, d) for x in self.items(eng)])

    def m_view(self, eng, a, k):
        if not a and not k:
            return Arr(self.d, buf=self.buf, pos=self.pos, ro=self.ro)
        d = dtype_of(eng, a[0] if a else k["dtype"])
        if SIZE[d] == SIZE[self.d]:
            if self.buf.d == self.d or SIZE[self.buf.d] == SIZE[d]:
                return Arr(d, buf=self.buf, pos=self.pos, ro=self.ro)
        return reread(eng, self, d)

    def m_copy(self, eng, a, k):
        return Arr(self.d, self.items(eng))

    def m_tolist(self, eng, a, k):
        return ListV([out(x, self.d) for x in self.items(eng)])

    def m_item(self, eng, a, k):
        if not a and len(self) != 1:
            eng.throw(ValueError, "can only convert an array of size 1 to a Python scalar")
        return out(self.get(eng, self.index(eng, a[0] if a else 0)), self.d)

    def m_any(self, eng, a, k):
        return np_any(eng, [self, *a], k)

    def m_all(self, eng, a, k):
        return np_all(eng, [self, *a], k)

    def m_sum(self, eng, a, k):
        return np_sum(eng, [self, *a], k)

    def m_round(self, eng, a, k):
        return np_round(eng, [self, *a], k)

    def m_fill(self, eng, a, k):
        self.v_setitem(eng, slice(None), a[0])

    def m_ravel(self, eng, a, k):
        return self

    def m_flatten(self, eng, a, k):
        return self.m_copy(eng, a, k)

    def m_nonzero(self, eng, a, k):
        return (np_flatnonzero(eng, [self], {}),)

    def m_setflags(self, eng, a, k):
        self.ro = not k.get("write", True)

    def m_repeat(self, eng, a, k):
        return np_repeat(eng, [self, *a], k)

    def m_take(self, eng, a, k):
        return self.v_getitem(eng, a[0])

    def m_tobytes(self, eng, a, k):
        return to_bytes(eng, self)

    def m_max(self, eng, a, k):
        return np_extreme("GtE")(eng, [self], {})

    def m_min(self, eng, a, k):
        return np_extreme("LtE")(eng, [self], {})

    def m_clip(self, eng, a, k):
        raise Undecided("clip")

    def __repr__(self):
        return f"array({LONG[self.d]}, {[self.buf.elems[p] for p in self.pos]!r})"


def out(v, d):
    """Element as it is seen by Python code."""
    if d == "b1" and isinstance(v, bool):
        return NpBool(v)
    if isinstance(v, W):
        return BitsV(eng_of(v), v.bits) if d[0] == "u" else N.from_bits(v.bits, True)
    if isinstance(v, Num):
        return N.as_real(v) if is_float(d) else (Num(v.c, v.k) if v.real else v)
    return v


def eng_of(v):
    return next(b[0].eng for b in v.bits if b not in (0, 1))


def flip(b):
    b = N.known(b)
    if b in (0, 1):
        return 1 - b
    return 1 - b[0].choose_bit(b[1])


def concrete_int(eng, v):
    if isinstance(v, NpBool):
        return int(v.v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, W):
        v = BitsV(eng, v.bits)
    if isinstance(v, BitsV):
        c = v.const()
        if c is not None:
            return c
        open_ = [b for b in v.resolved() if b not in (0, 1)]
        if len(open_) <= 3:
            for s, k in open_:
                s.choose_bit(k)
            return v.const()
    if isinstance(v, Num):
        x = whole(N.canon(v)) if isinstance(N.canon(v), Num) and N.integral(N.canon(v)) else None
        if isinstance(x, int):
            return x
    if isinstance(v, float) or v is None or eng.kindof(v) in ("str", "bytes", "NoneType"):
        eng.throw(TypeError, "an index must be an integer")
    raise Undecided(f"index {short(v)}")


def operand(eng, o):
    """(elements or None for a scalar, dtype, scalar) of an operand of a ufunc."""
    if isinstance(o, Arr):
        return o.items(eng), o.d, None
    if isinstance(o, NpBool):
        return None, "b1", o.v
    if isinstance(o, bool):
        return None, "b1", o
    if isinstance(o, int):
        return None, "i8" if o < 2**63 else "u8", o
    if isinstance(o, (float, Num)):
        if isinstance(o, Num) and N.integral(o) and not o.real:
            return None, "i8", o
        return None, "f8", o
    if isinstance(o, (ListV, tuple)):
        r = np_array(eng, [o], {})
        return r.items(eng), r.d, None
    if isinstance(o, (BitsV, Term, Aff)) and lift(eng, o) is not None:
        return None, "i8", o
    if isinstance(o, Fraction):
        return None, "f8", float(o)
    return None


def promote(x, y):
    """Common dtype of two operands (value-based for scalars)."""
    (xs, dx, vx), (ys, dy, vy) = x, y
    if xs is not None and ys is None:
        return promote_scalar(dx, dy, vy)
    if ys is not None and xs is None:
        return promote_scalar(dy, dx, vx)
    return common(dx, dy)


def promote_scalar(d, ds, v):
    rank = {"b": 0, "u": 1, "i": 1, "f": 2}
    if d == "O" or ds == "O":
        return "O"
    if d == "M8":
        return d
    if rank[ds[0]] > rank[d[0]]:
        return ds
    if d[0] == "u" and isinstance(v, int) and v < 0:
        return common(d, "i8")
    if d[0] in "iu" and isinstance(v, int) and not isinstance(v, bool) and wrap(v, d) != v:
        return common(d, ds)
    return d


def common(a, b):
    if a == b:
        return a
    if "O" in (a, b):
        return "O"
    if a == "b1":
        return b
    if b == "b1":
        return a
    if is_float(a) or is_float(b):
        return "f8"
    if a[0] == b[0]:
        return max(a, b, key=SIZE.get)
    u, i = (a, b) if a[0] == "u" else (b, a)
    if SIZE[i] > SIZE[u]:
        return i
    return {1: "i2", 2: "i4", 4: "i8", 8: "f8"}[SIZE[u]]


def spread(eng, x, y):
    xs, ys = x[0], y[0]
    n = len(xs) if xs is not None else (len(ys) if ys is not None else 1)
    if xs is not None and ys is not None and len(xs) != len(ys):
        if len(xs) == 1:
            xs = xs * len(ys)
            n = len(ys)
        elif len(ys) == 1:
            ys = ys * len(xs)
        else:
            eng.throw(ValueError, "operands could not be broadcast together")
    xs = xs if xs is not None else [x[2]] * n
    ys = ys if ys is not None else [y[2]] * n
    return xs, ys


def broadcast(eng, v, n):
    o = operand(eng, v)
    if o is None:
        if v is None:
            return [None] * n, "O"
        raise Undecided(f"assignment of {short(v)}")
    if o[0] is None:
        return [o[2]] * n, o[1]
    if len(o[0]) != n:
        if len(o[0]) == 1:
            return o[0] * n, o[1]
        eng.throw(ValueError, "could not broadcast input array")
    return o[0], o[1]


def binary(eng, op, a, b):
    x, y = operand(eng, a), operand(eng, b)
    if x is None or y is None:
        raise Undecided(f"{op} of {short(a)} and {short(b)}")
    d = promote(x, y)
    xs, ys = spread(eng, x, y)
    if d == "b1":
        if op in ("BitAnd", "BitOr", "BitXor", "Mult", "Add"):
            f = {"BitAnd": lambda p, q: p and q, "BitOr": lambda p, q: p or q, "BitXor": lambda p, q: p != q,
                 "Mult": lambda p, q: p and q, "Add": lambda p, q: p or q}[op]
            return Arr("b1", [f(truth(eng, p, x[1]), truth(eng, q, y[1])) for p, q in zip(xs, ys)])
        if op == "Sub":
            eng.throw(TypeError, "numpy boolean subtract, the `-` operator, is not supported")
        d = "i1" if op != "Div" else "f8"
    if op == "Div" and not is_float(d):
        d = "f8"
    if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift") and is_float(d):
        eng.throw(TypeError, f"ufunc for {op} not supported for the input types")
    if d == "O":
        raise Undecided("arithmetic of objects")
    return Arr(d, [elem(eng, op, scal(eng, p, x, d), scal(eng, q, y, d), d) for p, q in zip(xs, ys)])


def scal(eng, v, o, d):
    return convert(eng, v, o[1], d)


def elem(eng, op, a, b, d):
    """One operation on elements of one dtype."""
    a, b = norm(eng, a, d), norm(eng, b, d)
    if op == "FMod":
        x, y = as_num(eng, a, d), as_num(eng, b, d)
        y = N.plain(y)
        if isinstance(x, float) and not math.isfinite(x) or not isinstance(y, (int, float)) or not y:
            raise Undecided("remainder")
        q = N.trunc(eng, N.scale(N.num(x), 1 / Fraction(y)))
        return norm(eng, N.sub(N.num(x), N.scale(N.num(q), Fraction(y))), d)
    if is_float(d):
        r = norm(eng, N.arith(eng, op, a, b), d)
        return single(r) if d == "f4" else r
    if isinstance(a, int) and isinstance(b, int):
        if op in ("FloorDiv", "Mod") and b == 0:
            return 0
        if op in ("LShift", "RShift") and b >= 8 * SIZE[d]:
            return 0 if op == "LShift" or a >= 0 else -1
        r = N.exact(op, a, b)
        if r is None:
            raise Undecided(f"{op} of {a} and {b}")
        return wrap(int(r), d)
    if isinstance(a, Num) or isinstance(b, Num):
        return norm(eng, N.arith(eng, op, as_num(eng, a, d), as_num(eng, b, d)), d)
    w = 8 * SIZE[d]
    if op in ("LShift", "RShift"):
        n = concrete_int(eng, b)
        bits = bits_of(eng, a, d)
        if op == "LShift":
            return word(eng, ([0] * n + bits)[:w], d)
        return word(eng, (bits[n:] + [bits[-1] if d[0] == "i" else 0] * n)[:w], d)
    p, q = bits_of(eng, a, d), bits_of(eng, b, d)
    if op in ("BitAnd", "BitOr", "BitXor"):
        r = lift_bits(eng, op, p, q)
        return word(eng, r, d)
    if op == "Add" and all(u == 0 or v == 0 for u, v in zip(p, q)):
        return word(eng, [v if u == 0 else u for u, v in zip(p, q)], d)
    if op == "Mult":
        for u, v in ((a, b), (b, a)):
            if isinstance(v, int) and v > 0 and v & (v - 1) == 0:
                return elem(eng, "LShift", u, v.bit_length() - 1, d)
    if op in ("FloorDiv", "Mod") and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
        k = b.bit_length() - 1
        if op == "FloorDiv":
            return elem(eng, "RShift", a, k, d)
        return word(eng, p[:k] + [0] * (w - k), d)
    open_ = {(x[0], x[1]) for x in (*p, *q) if x not in (0, 1)}
    if len(open_) <= 3:
        for s, k in sorted(open_, key=lambda t: (t[0].name, t[1])):
            s.choose_bit(k)
        return elem(eng, op, word(eng, p, d), word(eng, q, d), d)
    r = N.arith(eng, op, as_num(eng, a, d), as_num(eng, b, d))
    if isinstance(r, Num):
        lo, _, hi, _ = N.bounds(r)
        top = (1 << w) - 1 if d[0] == "u" else (1 << (w - 1)) - 1
        bot = 0 if d[0] == "u" else -(1 << (w - 1))
        if lo is not None and hi is not None and lo >= bot and hi <= top and N.integral(r):
            return norm(eng, r, d)
    raise Undecided(f"{op} of {short(a)} and {short(b)}")


def lift_bits(eng, op, p, q):
    r = BitsV(eng, p).v_binop(eng, op, BitsV(eng, q), False)
    return [r.res(i) for i in range(len(p))]


def comparison(eng, op, a, b):
    x, y = operand(eng, a), operand(eng, b)
    xs, ys = spread(eng, x, y)
    return Arr("b1", [compare(eng, op, p, x[1], q, y[1]) for p, q in zip(xs, ys)])


def compare(eng, op, p, dp, q, dq):
    p, q = norm(eng, p, dp), norm(eng, q, dq)
    if dp == "O" or dq == "O":
        return eng.truth(eng.compare(op, p, q))
    if isinstance(p, W) and isinstance(q, int):
        return compare_bits(eng, op, p, q, dp)
    if isinstance(q, W) and isinstance(p, int):
        return compare_bits(eng, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op), q, p, dq)
    p = as_num(eng, p, dp) if isinstance(p, (W, bool)) else p
    q = as_num(eng, q, dq) if isinstance(q, (W, bool)) else q
    return bool(N.relation(eng, op, p, q))


def compare_bits(eng, op, w, c, d):
    n = len(w.bits)
    bits = list(w.bits)
    if d[0] == "i":
        b = N.known(bits[-1])
        if b not in (0, 1):
            b = b[0].choose_bit(b[1])
        if b:
            # w = bits - 2**n
            c += 1 << n
            bits = [N.known(x) for x in bits]
    v = BitsV(eng, bits)
    r = v.const()
    if r is not None:
        return {"Eq": r == c, "NotEq": r != c, "Lt": r < c, "LtE": r <= c, "Gt": r > c, "GtE": r >= c}[op]
    return eng.truth(v.v_compare(eng, op, c, False)) if c >= 0 else op in ("Gt", "GtE", "NotEq")


# ------------------------------------------------------------------ bytes of arrays


class BufV(AbsVal):
    """Memory of an array handed on (memoryview of numpy, pyarrow.Buffer)."""

    __slots__ = ("arr", "arrow")
    kind = "buffer"

    def __init__(self, arr, arrow=False):
        self.arr, self.arrow = arr, arrow

    def v_truth(self, eng):
        return True

    def v_len(self, eng):
        return len(self.arr) * (SIZE[self.arr.d] if self.arrow else 1)

    def v_getattr(self, eng, name):
        if name in ("size", "nbytes"):
            return len(self.arr) * SIZE[self.arr.d]
        if name in ("contiguous", "c_contiguous"):
            return self.arr.contiguous()
        if name == "tobytes" or name == "to_pybytes":
            return Builtin(name, lambda e, a, k: to_bytes(e, self.arr))
        if name == "is_mutable":
            return not self.arr.ro
        if name == "itemsize":
            return SIZE[self.arr.d]
        if name == "cast":
            return Builtin(name, lambda e, a, k: self)
        raise Undecided(f"buffer.{name}")

    def __repr__(self):
        return f"<memory of {self.arr!r}>"


def to_bytes(eng, arr):
    parts = []
    for x in arr.items(eng):
        d = arr.d
        if is_float(d):
            x, d = reinterpret(eng, x, "f8", "u8"), "u8"
        if d == "b1":
            x, d = int(x), "u1"
        b = bits_of(eng, x, d)
        parts += [BitsV(eng, b[i : i + 8]) for i in range(0, len(b), 8)]
    return ByteStr(eng, parts)


def from_bytes(eng, data, d):
    """Elements of a byte string; ValueError of numpy if it does not consist of whole elements."""
    b = to_bytestr(eng, data)
    if b is None:
        raise Undecided(f"memory of {short(data)}")
    sz = SIZE[d]
    r = []
    cur = []
    for p in b.parts:
        if isinstance(p, Seg):
            raise Undecided(f"memory of {p!r}")
        v = lift(eng, p)
        cur += [v.res(i) for i in range(8)]
        if len(cur) == 8 * sz:
            if is_float(d):
                r.append(reinterpret(eng, word(eng, cur, "u8"), "u8", d))
            elif d == "b1":
                r.append(bool(word(eng, cur, "u1")))
            else:
                r.append(word(eng, cur, d))
            cur = []
    if cur:
        eng.throw(ValueError, "buffer size must be a multiple of element size")
    return r


def reread(eng, arr, d):
    """Elements of another width."""
    n = len(arr) * SIZE[arr.d]
    if n % SIZE[d]:
        eng.throw(ValueError, "buffer size must be a multiple of element size")
    if any(isinstance(x, Num) for x in arr.items(eng)):
        return Arr(d, [Num({Junk("memory read at another width"): 1}) for _ in range(n // SIZE[d])])
    return Arr(d, from_bytes(eng, to_bytes(eng, arr), d))


# ------------------------------------------------------------------ numpy functions


def arg(a, k, i, name, default=None):
    return a[i] if len(a) > i else k.get(name, default)


def np_scalar(d):
    return lambda eng, a, k: scalar(eng, d, a)


def scalar(eng, d, a):
    v = a[0] if a else 0
    if isinstance(v, (Arr, ListV, tuple)):
        return np_array(eng, [v, DT(d)], {})
    if isinstance(v, NpBool):
        v = v.v
    if d == "b1":
        return NpBool(eng.truth(v))
    if is_float(d):
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, Num):
            return v
        if isinstance(v, (BitsV, Aff, Term)) and lift(eng, v) is not None:
            return N.from_bits(lift(eng, v).resolved())
        if eng.kindof(v) in ("str", "bytes"):
            return parse(eng, v, d)
        raise Undecided(f"float of {short(v)}")
    if isinstance(v, (bool, int)):
        return wrap(int(v), d)
    if isinstance(v, float):
        return convert(eng, v, "f8", d)
    if isinstance(v, Num):
        return whole(N.trunc(eng, v))
    if isinstance(v, (BitsV, Aff, Term)):
        return v
    raise Undecided(f"integer of {short(v)}")


def np_array(eng, a, k):
    v = a[0] if a else k.get("object")
    dt = arg(a, k, 1, "dtype")
    d = dtype_of(eng, dt) if dt is not None else None
    if isinstance(v, PaArr):
        v = v.m_to_numpy(eng, [], {"zero_copy_only": False})
    if isinstance(v, Arr):
        d = d or v.d
        return Arr(d, [convert(eng, x, v.d, d) for x in v.items(eng)])
    if isinstance(v, BufV):
        return Arr(v.arr.d, v.arr.items(eng)) if d is None else v.arr.m_astype(eng, [DT(d)], {})
    if operand_scalar(v):
        o = operand(eng, v)
        return Arr(d or o[1], [convert(eng, o[2], o[1], d or o[1])])
    xs = eng.to_list(v)
    ds = []
    for x in xs:
        o = operand(eng, x)
        ds.append("O" if o is None or o[0] is not None else o[1])
    if d is None:
        d = "f8" if not ds else ds[0]
        for e in ds[1:]:
            d = common(d, e)
    return Arr(d, [convert(eng, x.v if isinstance(x, NpBool) else x, e, d) for x, e in zip(xs, ds)])


def operand_scalar(v):
    return isinstance(v, (int, float, Num, NpBool))


def np_asarray(eng, a, k):
    v = a[0]
    dt = arg(a, k, 1, "dtype")
    if isinstance(v, Arr) and (dt is None or dtype_of(eng, dt) == v.d):
        return v
    return np_array(eng, a, k)


def as_arr(eng, v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, PaArr):
        return v.m_to_numpy(eng, [], {"zero_copy_only": False})
    return np_array(eng, [v], {})


def np_compress(eng, a, k):
    """Elements where the condition holds, up to the shorter of both."""
    if k or len(a) != 2:
        raise Undecided("compress")
    m, v = as_arr(eng, a[0]), as_arr(eng, a[1])
    xs = m.items(eng)
    if any(truth(eng, x, m.d) for x in xs[len(v) :]):
        eng.throw(IndexError, "index out of bounds")
    return Arr(v.d, [x for c, x in zip(xs, v.items(eng)) if truth(eng, c, m.d)])


def np_where(eng, a, k):
    c = operand(eng, a[0])
    if len(a) == 1:
        return (np_flatnonzero(eng, a, k),)
    x, y = operand(eng, a[1]), operand(eng, a[2])
    if c is None or x is None or y is None:
        raise Undecided("where")
    d = promote(x, y) if x[0] is not None or y[0] is not None else common(x[1], y[1])
    n = max([len(o[0]) for o in (c, x, y) if o[0] is not None and len(o[0]) != 1] or [1])
    for o in (c, x, y):
        if o[0] is not None and len(o[0]) not in (1, n):
            eng.throw(ValueError, "operands could not be broadcast together")
    if any(o[0] is not None and len(o[0]) == 0 for o in (c, x, y)):
        return Arr(d, [])

    def at(o, i):
        return o[2] if o[0] is None else o[0][i if len(o[0]) > 1 else 0]

    r = []
    for i in range(n):
        o = x if truth(eng, at(c, i), c[1]) else y
        r.append(convert(eng, at(o, i), o[1], d))
    return Arr(d, r)


def elements(eng, v):
    o = operand(eng, v)
    if o is None:
        if isinstance(v, PaArr):
            o = operand(eng, v.m_to_numpy(eng, [], {"zero_copy_only": False}))
        else:
            raise Undecided(f"elements of {short(v)}")
    return (o[0] if o[0] is not None else [o[2]]), o[1], o[0] is None


def np_any(eng, a, k):
    xs, d, _ = elements(eng, a[0])
    for x in xs:
        if truth(eng, x, d):
            return NpBool(True)
    return NpBool(False)


def np_all(eng, a, k):
    xs, d, _ = elements(eng, a[0])
    for x in xs:
        if not truth(eng, x, d):
            return NpBool(False)
    return NpBool(True)


def np_sum(eng, a, k):
    xs, d, _ = elements(eng, a[0])
    if d == "b1":
        return sum(truth(eng, x, d) for x in xs)
    r = 0 if not is_float(d) else 0.0
    for x in xs:
        r = elem(eng, "Add", r, x, d)
    return out(r, d)


def np_count_nonzero(eng, a, k):
    xs, d, _ = elements(eng, a[0])
    return sum(truth(eng, x, d) for x in xs)


def np_flatnonzero(eng, a, k):
    xs, d, _ = elements(eng, a[0])
    return Arr("i8", [i for i, x in enumerate(xs) if truth(eng, x, d)])


def np_extreme(op):
    def f(eng, a, k):
        xs, d, _ = elements(eng, a[0])
        if not xs:
            eng.throw(ValueError, "zero-size array to reduction operation which has no identity")
        best = xs[0]
        for x in xs[1:]:
            if isinstance(best, float) and math.isnan(best):
                break
            if isinstance(x, float) and math.isnan(x):
                best = x
            elif compare(eng, op, x, d, best, d):
                best = x
        return out(best, d)

    return f


def unary(fn, int_too=False):
    """A ufunc of one float argument."""

    def f(eng, a, k):
        xs, d, one = elements(eng, a[0])
        no_texts(eng, xs, d)
        r = []
        dd = d if is_float(d) or int_too else ("f8" if not is_int(d) or not int_too else d)
        if is_int(d) and fn in (N.trunc, N.floor, N.ceil):
            dd = d if fn is not None else dd
        for x in xs:
            x = norm(eng, x, d)
            if isinstance(x, float):
                r.append(known_float(fn, x))
            elif isinstance(x, Num):
                r.append(norm(eng, fn(eng, x), dd))
            else:
                y = as_num(eng, x, d)
                r.append(norm(eng, fn(eng, y), dd))
        res = Arr(dd, r)
        return give(eng, res, a, k, 1, one)

    return f


def no_texts(eng, xs, d):
    """A ufunc of numbers takes no texts."""
    if d[0] in "US" or d == "O" and any(x is None or eng.kindof(x) in ("str", "bytes") for x in xs):
        eng.throw(TypeError, "ufunc not supported for the input types")


def give(eng, res, a, k, n, one=False):
    o = k.get("out") if "out" in k else (a[n] if len(a) > n else None)
    if isinstance(o, tuple):
        o = o[0]
    if o is not None:
        if "where" in k:
            raise Undecided("where= of a ufunc")
        for i in range(len(res)):
            o.set(eng, i, convert(eng, res.get(eng, i), res.d, o.d))
        return o
    if one:
        return out(res.get(eng, 0), res.d)
    return res


def known_float(fn, x):
    if not math.isfinite(x):
        return abs(x) if fn is N.absolute else x
    return {
        N.trunc: lambda: float(math.trunc(x)), N.floor: lambda: float(math.floor(x)), N.ceil: lambda: float(math.ceil(x)),
        N.nearest: lambda: float(round(x)), N.absolute: lambda: abs(x),
    }[fn]()


def np_round(eng, a, k):
    xs, d, one = elements(eng, a[0])
    no_texts(eng, xs, d)
    n = arg(a, k, 1, "decimals", 0)
    n = concrete_int(eng, n)
    r = []
    for x in xs:
        x = norm(eng, x, d)
        if isinstance(x, float):
            if math.isfinite(x):
                # as numpy does it
                try:
                    y = x * 10.0**n
                    x = round(y) / 10.0**n if math.isfinite(y) else y / 10.0**n
                except OverflowError:
                    pass
            r.append(float(x))
        elif isinstance(x, Num):
            r.append(norm(eng, N.rounded(eng, x, n), d))
        else:
            r.append(x if n >= 0 else norm(eng, N.rounded(eng, as_num(eng, x, d), n), d))
    return give(eng, Arr(d, r), a, k, 2, one)


def test(fn):
    def f(eng, a, k):
        xs, d, one = elements(eng, a[0])
        r = [fn(norm(eng, x, d)) for x in xs]
        return NpBool(r[0]) if one else Arr("b1", r)

    return f


def np_binary(op):
    def f(eng, a, k):
        x, y = operand(eng, a[0]), operand(eng, a[1])
        if x is None or y is None:
            raise Undecided(op)
        if x[0] is None and y[0] is None:
            return eng.binop(op, a[0], a[1])
        return give(eng, binary(eng, op, a[0], a[1]), a, k, 2)

    return f


def np_compare(op):
    def f(eng, a, k):
        if operand(eng, a[0])[0] is None and operand(eng, a[1])[0] is None:
            return eng.compare(op, a[0], a[1])
        return give(eng, comparison(eng, op, a[0], a[1]), a, k, 2)

    return f


def np_logical(op):
    def f(eng, a, k):
        x, y = elements(eng, a[0]), elements(eng, a[1])
        n = max(len(x[0]), len(y[0])) if len(x[0]) and len(y[0]) else 0
        xs = [truth(eng, v, x[1]) for v in (x[0] * n if len(x[0]) == 1 else x[0])][:n]
        ys = [truth(eng, v, y[1]) for v in (y[0] * n if len(y[0]) == 1 else y[0])][:n]
        if len(xs) != len(ys):
            eng.throw(ValueError, "operands could not be broadcast together")
        r = [{"and": p and q, "or": p or q, "xor": p != q}[op] for p, q in zip(xs, ys)]
        if x[2] and y[2]:
            return NpBool(r[0])
        return give(eng, Arr("b1", r), a, k, 2)

    return f


def np_logical_not(eng, a, k):
    xs, d, one = elements(eng, a[0])
    r = [not truth(eng, x, d) for x in xs]
    return NpBool(r[0]) if one else give(eng, Arr("b1", r), a, k, 1)


def np_invert(eng, a, k):
    return eng.unop("Invert", a[0])


def np_repeat(eng, a, k):
    n = arg(a, k, 1, "repeats")
    if isinstance(n, (Arr, ListV, tuple)):
        raise Undecided("repeat by an array")
    n = concrete_int(eng, n)
    if n < 0:
        eng.throw(ValueError, "repeats may not contain negative values.")
    xs, d, _ = elements(eng, a[0])
    return Arr(d, [x for x in xs for _ in range(n)])


def np_tile(eng, a, k):
    xs, d, _ = elements(eng, a[0])
    return Arr(d, xs * concrete_int(eng, a[1]))


def size_of(eng, n):
    if isinstance(n, (tuple, ListV)):
        xs = eng.to_list(n)
        if len(xs) != 1:
            raise Undecided("arrays of several dimensions")
        n = xs[0]
    return concrete_int(eng, n)


def np_full(eng, a, k):
    n = size_of(eng, arg(a, k, 0, "shape"))
    v = arg(a, k, 1, "fill_value")
    o = operand(eng, v)
    dt = arg(a, k, 2, "dtype")
    d = dtype_of(eng, dt) if dt is not None else o[1]
    return Arr(d, [convert(eng, o[2], o[1], d) for _ in range(n)])


def np_zeros(v, junk=False):
    def f(eng, a, k):
        n = size_of(eng, arg(a, k, 0, "shape"))
        dt = arg(a, k, 1, "dtype")
        d = dtype_of(eng, dt) if dt is not None else "f8"
        if junk:
            return Arr(d, [Num({Junk("uninitialised element"): 1}) for _ in range(n)])
        return Arr(d, [convert(eng, v, "i8", d) for _ in range(n)])

    return f


def np_like(v, junk=False):
    def f(eng, a, k):
        x = a[0] if isinstance(a[0], Arr) else np_array(eng, [a[0]], {})
        dt = k.get("dtype")
        d = dtype_of(eng, dt) if dt is not None else x.d
        if junk:
            return Arr(d, [Num({Junk("uninitialised element"): 1}) for _ in x.pos])
        w = arg(a, k, 1, "fill_value") if v is None else v
        o = operand(eng, w)
        return Arr(d, [convert(eng, o[2], o[1], d) for _ in x.pos])

    return f


def np_arange(eng, a, k):
    xs = [concrete_int(eng, x) for x in a]
    dt = k.get("dtype")
    d = dtype_of(eng, dt) if dt is not None else "i8"
    return Arr(d, [convert(eng, x, "i8", d) for x in range(*xs)])


def np_frombuffer(eng, a, k):
    v = a[0] if a else k.get("buffer")
    dt = arg(a, k, 1, "dtype")
    d = dtype_of(eng, dt) if dt is not None else "f8"
    count = arg(a, k, 2, "count", -1)
    offset = arg(a, k, 3, "offset", 0)
    if v is None:
        eng.throw(TypeError, "a bytes-like object is required, not 'NoneType'")
    if isinstance(v, (Arr, BufV)):
        arr = v if isinstance(v, Arr) else v.arr
        if not arr.contiguous():
            eng.throw(ValueError, "ndarray is not C-contiguous")
        r = arr.m_view(eng, [DT(d)], {})
        r = Arr(d, buf=r.buf, pos=r.pos, ro=arr.ro or (isinstance(v, BufV) and v.arrow))
    elif isinstance(v, Opaque):
        raise Undecided(f"reading {v!r}")
    else:
        b = to_bytestr(eng, v)
        if b is not None and not b.parts and count in (-1, None):
            return Arr(d, [], ro=True)
        if offset:
            b = eng.getitem(b, slice(offset, None))
            offset = 0
        if count not in (-1, None):
            n = concrete_int(eng, count) * SIZE[d]
            have = sum(1 for p in b.parts)
            if have < n:
                eng.throw(ValueError, "buffer is smaller than requested size")
            b = ByteStr(eng, b.parts[:n])
        r = Arr(d, from_bytes(eng, b, d))
        r.ro = r.buf.ro = True
        return r
    if offset:
        r = r.v_getitem(eng, slice(concrete_int(eng, offset) // SIZE[d], None))
    if count not in (-1, None):
        n = concrete_int(eng, count)
        if n > len(r):
            eng.throw(ValueError, "buffer is smaller than requested size")
        r = r.v_getitem(eng, slice(0, n))
    return r


def parse(eng, x, d):
    """An element of numpy made from a text."""
    if isinstance(x, bool):
        return convert(eng, x, "b1", d)
    if isinstance(x, (int, float, Num)):
        return convert(eng, x, "f8" if isinstance(x, float) else "i8", d)
    if isinstance(x, (str, bytes)):
        if is_float(d):
            try:
                return float(x)
            except ValueError:
                eng.throw(ValueError, f"could not convert string to float: {x!r}")
        try:
            v = int(x)
        except ValueError:
            eng.throw(ValueError, f"invalid literal for int() with base 10: {x!r}")
        if not -(2**63) <= v < 2**64:
            eng.throw(OverflowError, "Python int too large to convert to C long")
        return wrap(v, d)
    if x is None:
        if is_float(d):
            return math.nan
        eng.throw(TypeError, "int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
    v = number_of(eng, x)
    if v is None:
        eng.throw(ValueError, f"could not convert string to float: {x!r}")
    if is_float(d):
        return v
    if isinstance(v, float) or (isinstance(v, Num) and not N.integral(v)):
        eng.throw(ValueError, "invalid literal for int() with base 10")
    lo, _, hi, _ = N.bounds(N.num(v)) if not isinstance(v, W) else (0, 0, 0, 0)
    w = 8 * SIZE[d]
    bot, top = (0, (1 << w) - 1) if d[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if lo is None or hi is None or lo < bot or hi > top:
        # does it fit?
        x = N.num(v)
        if N.decide_ge(eng, N.sub(x, Num({}, top + 1))) or not N.decide_ge(eng, N.sub(x, Num({}, bot))):
            if N.decide_ge(eng, N.sub(x, Num({}, 2**63))) or not N.decide_ge(eng, N.add(x, Num({}, 2**63))):
                if d[0] != "u" or N.decide_ge(eng, N.sub(x, Num({}, 2**64))) or not N.decide_ge(eng, x):
                    eng.throw(OverflowError, "Python int too large to convert to C long")
            return Num({Junk("an index wrapped around"): 1})
    return norm(eng, v, d)


def number_of(eng, text):
    """Number a symbolic text denotes, or None."""
    if isinstance(text, Term) and text.op == "encode":
        text = text.args[0]
    return eng.path.data.get("numbers", {}).get(ckey(text))


def np_fromiter(eng, a, k):
    it = a[0] if a else k.get("iter")
    dt = arg(a, k, 1, "dtype")
    d = dtype_of(eng, dt)
    n = arg(a, k, 2, "count", -1)
    xs = eng.to_list(it)
    n = -1 if n is None else concrete_int(eng, n)
    if n >= 0:
        if len(xs) < n:
            bad = [parse(eng, x, d) for x in xs]
            eng.throw(ValueError, f"iterator too short: Expected {n} but iterator had only {len(bad)} items.")
        xs = xs[:n]
    return Arr(d, [parse(eng, x.v if isinstance(x, NpBool) else x, d) for x in xs])


def np_concatenate(eng, a, k):
    xs = [x if isinstance(x, Arr) else np_array(eng, [x], {}) for x in eng.to_list(a[0])]
    if not xs:
        eng.throw(ValueError, "need at least one array to concatenate")
    d = xs[0].d
    for x in xs[1:]:
        d = common(d, x.d)
    return Arr(d, [convert(eng, v, x.d, d) for x in xs for v in x.items(eng)])


def np_iinfo(eng, a, k):
    d = dtype_of(eng, a[0].dtype if isinstance(a[0], Arr) else a[0])
    w = 8 * SIZE[d]
    lo, hi = (0, (1 << w) - 1) if d[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return LibObj("iinfo", min=lo, max=hi, bits=w)


def np_finfo(eng, a, k):
    import sys

    i = sys.float_info
    return LibObj("finfo", min=-i.max, max=i.max, eps=i.epsilon, tiny=i.min)


def np_isclose(eng, a, k):
    raise Undecided("isclose")


def np_array_equal(eng, a, k):
    x, y = elements(eng, a[0]), elements(eng, a[1])
    if len(x[0]) != len(y[0]):
        return False
    return all(compare(eng, "Eq", p, x[1], q, y[1]) for p, q in zip(x[0], y[0]))


def np_modf(eng, a, k):
    xs = a[0] if isinstance(a[0], Arr) else np_array(eng, [a[0]], {})
    whole = unary(N.trunc)(eng, [xs], {})
    return (binary(eng, "Sub", xs, whole), whole)


def np_isin(eng, a, k):
    raise Undecided("isin")


def np_unpackbits(eng, a, k):
    x = a[0]
    little = k.get("bitorder", "big") == "little"
    r = []
    for v in x.items(eng):
        b = bits_of(eng, v, "u1")
        r += [word(eng, [t] + [0] * 7, "u1") for t in (b if little else b[::-1])]
    return Arr("u1", r)


# ------------------------------------------------------------------ arrow types

WIDTH = {
    "bool": 1, "uint8": 8, "int8": 8, "uint16": 16, "int16": 16, "uint32": 32, "int32": 32, "uint64": 64, "int64": 64,
    "halffloat": 16, "float": 32, "double": 64, "date32[day]": 32, "date64[ms]": 64,
}
PHYS = {
    "uint8": "u1", "int8": "i1", "uint16": "u2", "int16": "i2", "uint32": "u4", "int32": "i4", "uint64": "u8", "int64": "i8",
    "float": "f4", "double": "f8", "date32[day]": "i4", "date64[ms]": "i8",
}
ALIAS = {
    "utf8": "string", "str": "string", "large_utf8": "large_string", "large_str": "large_string", "float64": "double",
    "float32": "float", "f8": "double", "i8": "int64", "boolean": "bool", "bool_": "bool", "date32": "date32[day]",
    "date64": "date64[ms]", "float16": "halffloat", "na": "null",
}
IDS = {}


class PaT(AbsVal):
    """pyarrow.DataType"""

    __slots__ = ("n", "tz", "unit")
    kind = "DataType"

    def __init__(self, n, unit=None, tz=None):
        self.n, self.unit, self.tz = n, unit, tz

    @property
    def base(self):
        return self.n.partition("[")[0]

    def v_key(self):
        return ("pa.DataType", self.n)

    def v_truth(self, eng):
        return True

    def v_compare(self, eng, op, o, rev):
        if op not in ("Eq", "NotEq"):
            return NotImplemented
        if isinstance(o, str):
            o = pa_type(eng, o)
        r = isinstance(o, PaT) and o.n == self.n
        return r == (op == "Eq")

    def v_isinstance(self, eng, cls):
        if cls is object:
            return True
        if isinstance(cls, ExtV):
            if cls.name in ("pyarrow.DataType", "pyarrow.lib.DataType"):
                return True
            if cls.name.startswith("pyarrow.") and cls.name.endswith("Type"):
                return cls.name.rpartition(".")[2] == {"timestamp": "TimestampType"}.get(self.base, "?")
            return False
        return False if isinstance(cls, (type, ClassV)) else NotImplemented

    def v_getattr(self, eng, name):
        if name == "id":
            return IDS.setdefault(self.base, len(IDS) + 1)
        if name == "bit_width":
            if self.base in ("timestamp", "time64", "duration"):
                return 64
            if self.base == "time32":
                return 32
            if self.n in WIDTH:
                return WIDTH[self.n]
            eng.throw(ValueError, "Non-fixed width type")
        if name == "byte_width":
            return self.v_getattr(eng, "bit_width") // 8
        if name in ("unit", "tz"):
            return getattr(self, name)
        if name == "equals":
            return Builtin(name, lambda e, a, k: self.v_compare(e, "Eq", a[0], False))
        if name == "to_pandas_dtype":
            return Builtin(name, lambda e, a, k: DT(PHYS.get(self.n, "O")))
        if name == "__str__":
            return Builtin(name, lambda e, a, k: self.n)
        raise Undecided(f"DataType.{name}")

    def __repr__(self):
        return f"DataType({self.n})"


def pa_type(eng, t):
    """Type given as a DataType or by its name."""
    if isinstance(t, PaT):
        return t
    if isinstance(t, str):
        n = ALIAS.get(t, t)
        m = _re.fullmatch(r"timestamp\[(s|ms|us|ns)\]", n)
        if m:
            return PaT(n, m.group(1))
        if n in WIDTH or n in ("string", "large_string", "null", "binary", "large_binary"):
            return PaT(n)
        return None
    raise Undecided(f"type {short(t)}")


def phys(t):
    return PHYS.get(t.n) or ("i8" if t.base in ("timestamp", "time64", "duration") else ("i4" if t.base == "time32" else None))


def is_text(t):
    return t.n in ("string", "large_string")


class Opaque(AbsVal):
    __slots__ = ("why",)
    kind = "buffer"

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<{self.why}>"


class ScalarV(AbsVal):
    """pyarrow.Scalar"""

    __slots__ = ("t", "v")
    kind = "Scalar"

    def __init__(self, t, v):
        self.t, self.v = t, v

    def v_key(self):
        return ("scalar", self.t.n, ckey(self.v))

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        if name == "as_py":
            return Builtin(name, lambda e, a, k: py(e, self.v, self.t))
        if name == "is_valid":
            return self.v is not None
        if name == "type":
            return self.t
        if name == "value":
            return self.v
        if name == "cast":
            return Builtin(name, lambda e, a, k: ScalarV(pa_type(e, a[0]), cast_value(e, self.v, self.t, pa_type(e, a[0]), True)))
        if name == "equals":
            return Builtin(name, lambda e, a, k: self.v_compare(e, "Eq", a[0], False))
        raise Undecided(f"Scalar.{name}")

    def v_compare(self, eng, op, o, rev):
        if op in ("Eq", "NotEq"):
            r = isinstance(o, ScalarV) and o.t.n == self.t.n and same_value(eng, self.v, o.v, self.t)
            return r == (op == "Eq")
        return NotImplemented

    def __repr__(self):
        return f"<{self.t.n} scalar {self.v!r}>"


def py(eng, v, t):
    """Python object of an element."""
    if v is None:
        return None
    if t.base in ("timestamp", "date32", "date64", "time32", "time64"):
        return Term("moment", (v, t.n), "datetime")
    return out(v, phys(t) or "O") if not isinstance(v, bool) else v


def same_value(eng, a, b, t):
    if a is None or b is None:
        return a is b
    d = phys(t)
    if d:
        return compare(eng, "Eq", a, d, b, d)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return eng.truth(eng.compare("Eq", a, b))


class PaArr(AbsVal):
    """pyarrow.Array: values (None for null), or a window of a buffer."""

    __slots__ = ("arr", "off", "root", "t", "valid", "vals")
    kind = "pa.Array"

    def __init__(self, t, vals=None, arr=None, valid=None, root=None, off=0):
        self.t = t
        if arr is None and phys(t) and vals is not None:
            d = phys(t)
            arr = Arr(d, [Num({Junk("the slot of a null"): 1}) if v is None else v for v in vals])
            arr.ro = True
            valid = [v is not None for v in vals]
            vals = None
        self.vals, self.arr, self.valid = vals, arr, valid
        self.root, self.off = root, off  # the array this is a slice of

    def __len__(self):
        return len(self.vals) if self.vals is not None else len(self.arr)

    def get(self, eng, i):
        if self.vals is not None:
            return self.vals[i]
        if self.valid is not None and not self.valid[i]:
            return None
        return self.arr.get(eng, i)

    def items(self, eng):
        return [self.get(eng, i) for i in range(len(self))]

    def window(self, idx):
        if self.vals is not None:
            return PaArr(self.t, [self.vals[i] for i in idx], root=self.root or self, off=0)
        contiguous = all(b == a + 1 for a, b in zip(idx, idx[1:]))
        a = Arr(self.arr.d, buf=self.arr.buf, pos=[self.arr.pos[i] for i in idx], ro=True)
        r = PaArr(self.t, arr=a, valid=None if self.valid is None else [self.valid[i] for i in idx])
        if contiguous:
            r.root = self.root or self
            r.off = self.off + (idx[0] if idx else 0)
        else:
            r.arr = Arr(a.d, [a.buf.elems[p] for p in a.pos] if a.buf.d == a.d else [], ro=True) if a.buf.d == a.d else a
        return r

    # ------------------------------------------------------------ protocol

    def v_truth(self, eng):
        return len(self) > 0

    def v_len(self, eng):
        return len(self)

    def v_iter(self, eng, cb):
        for x in self.items(eng):
            cb(ScalarV(self.t, x))
        return None

    def v_isinstance(self, eng, cls):
        if cls is object:
            return True
        if isinstance(cls, ExtV):
            return cls.name in ("pyarrow.Array", "pyarrow.lib.Array", f"pyarrow.{CLASS.get(self.t.base, '?')}", f"pyarrow.lib.{CLASS.get(self.t.base, '?')}")
        return False if isinstance(cls, type) else NotImplemented

    def v_getitem(self, eng, i):
        n = len(self)
        if isinstance(i, slice):
            if not is_conc(i):
                i = slice(*(None if x is None else concrete_int(eng, x) for x in (i.start, i.stop, i.step)))
            return self.window(list(range(n))[i])
        if isinstance(i, (Arr, PaArr, ListV, tuple)):
            eng.throw(TypeError, "only integer scalar arrays can be converted to a scalar index")
        v = concrete_int(eng, i)
        if not -n <= v < n:
            eng.throw(IndexError, "index out of bounds")
        return ScalarV(self.t, self.get(eng, v % n))

    def v_compare(self, eng, op, o, rev):
        if op in ("Eq", "NotEq"):
            r = isinstance(o, PaArr) and self.equals(eng, o)
            return r == (op == "Eq")
        return NotImplemented

    def equals(self, eng, o):
        return o.t.n == self.t.n and len(o) == len(self) and all(same_value(eng, p, q, self.t) for p, q in zip(self.items(eng), o.items(eng)))

    def v_getattr(self, eng, name):
        f = getattr(self, "m_" + name.strip("_"), None)
        if f is not None:
            return Builtin(name, f)
        if name == "type":
            return self.t
        if name == "null_count":
            return sum(x is None for x in self.items(eng))
        if name == "offset":
            return self.off
        if name == "nbytes":
            return len(self)
        if name in ("true_count", "false_count"):
            if self.t.n != "bool":
                eng.throw(AttributeError, name)
            return sum(x is (name == "true_count") for x in self.items(eng))
        if name == "num_chunks":
            eng.throw(AttributeError, name)
        raise Undecided(f"pyarrow.Array.{name}")

    def m_buffers(self, eng, a, k):
        if self.t.n == "null":
            return ListV([None])
        root = self.root or self
        valid = None if root.valid is None or all(root.valid) else Opaque("validity bits")
        if root.arr is not None:
            r = Arr(root.arr.d, buf=root.arr.buf, pos=root.arr.pos, ro=True)
            return ListV([valid, BufV(r, True)])
        if self.t.n == "bool":
            xs = root.vals
            if any(x is None for x in xs):
                raise Undecided("bits of nulls")
            bits = [int(x) for x in xs] + [0] * (-len(xs) % 8)
            by = [sum(b << j for j, b in enumerate(bits[i : i + 8])) for i in range(0, len(bits), 8)]
            b = Arr("u1", by)
            b.ro = True
            return ListV([valid, BufV(b, True)])
        return ListV([Opaque("validity bits"), Opaque("offsets of texts"), Opaque("characters of texts")])

    def m_cast(self, eng, a, k):
        if k.get("options") is not None:
            raise Undecided("cast with options")
        t = pa_type(eng, arg(a, k, 0, "target_type"))
        if t is None:
            eng.throw(ValueError, "No type alias")
        return cast(eng, self, t, bool(arg(a, k, 1, "safe", True) in (True, None)))

    def m_view(self, eng, a, k):
        t = pa_type(eng, a[0])
        if phys(t) and self.arr is not None and SIZE[phys(t)] == SIZE[self.arr.d]:
            return PaArr(t, arr=self.arr.m_view(eng, [DT(phys(t))], {}), valid=self.valid)
        raise Undecided("view")

    def m_filter(self, eng, a, k):
        return pa_filter(eng, self, arg(a, k, 0, "mask"), k.get("null_selection_behavior", "drop"))

    def m_take(self, eng, a, k):
        return pa_take(eng, self, arg(a, k, 0, "indices"), True)

    def m_slice(self, eng, a, k):
        o = concrete_int(eng, arg(a, k, 0, "offset", 0))
        n = arg(a, k, 1, "length")
        if o < 0:
            eng.throw(IndexError, "Offset must be non-negative")
        idx = list(range(len(self)))[o:]
        if n is not None:
            n = concrete_int(eng, n)
            if n < 0:
                eng.throw(ValueError, "Length must be non-negative")
            idx = idx[:n]
        return self.window(idx)

    def m_is_null(self, eng, a, k):
        return is_null(eng, self, bool(arg(a, k, 0, "nan_is_null", False)))

    def m_is_valid(self, eng, a, k):
        return PaArr(PaT("bool"), [x is not None for x in self.items(eng)])

    def m_is_nan(self, eng, a, k):
        return PaArr(PaT("bool"), [None if x is None else isinstance(x, float) and math.isnan(x) for x in self.items(eng)])

    def m_fill_null(self, eng, a, k):
        return fill_null(eng, self, a[0] if a else k["fill_value"])

    def m_drop_null(self, eng, a, k):
        return PaArr(self.t, [x for x in self.items(eng) if x is not None])

    def m_to_numpy(self, eng, a, k):
        zero = arg(a, k, 0, "zero_copy_only", True)
        xs = self.items(eng)
        nulls = any(x is None for x in xs)
        d = phys(self.t)
        if d is None:
            if zero:
                eng.throw(ExtV("pyarrow.ArrowInvalid"), "Zero copy conversions not possible")
            if self.t.n == "bool" and not nulls:
                return Arr("b1", xs)
            return Arr("O", xs)
        if nulls:
            if zero:
                eng.throw(ExtV("pyarrow.ArrowInvalid"), "Needed to copy 1 chunks with 1 nulls, but zero_copy_only was True")
            if self.t.base == "timestamp":
                return Arr("M8", [-(2**63) if x is None else x for x in xs])
            return Arr("f8", [math.nan if x is None else convert(eng, x, d, "f8") for x in xs])
        if self.t.base == "timestamp":
            d = "M8"
        if self.arr is not None and self.arr.d in (d, "i8"):
            return Arr(d, buf=self.arr.buf, pos=self.arr.pos, ro=True)
        return Arr(d, xs)

    def m_array(self, eng, a, k):
        return self.m_to_numpy(eng, [], {"zero_copy_only": False})

    def m_to_pylist(self, eng, a, k):
        return ListV([py(eng, x, self.t) for x in self.items(eng)])

    m_tolist = m_to_pylist

    def m_sum(self, eng, a, k):
        return pa_sum(eng, self)

    def m_equals(self, eng, a, k):
        return isinstance(a[0], PaArr) and self.equals(eng, a[0])

    def m_index(self, eng, a, k):
        x = a[0].v if isinstance(a[0], ScalarV) else a[0]
        for i, v in enumerate(self.items(eng)):
            if v is not None and (v == x if isinstance(v, bool) else same_value(eng, v, x, self.t)):
                return ScalarV(PaT("int64"), i)
        return ScalarV(PaT("int64"), -1)

    def m_validate(self, eng, a, k):
        return None

    def m_unique(self, eng, a, k):
        raise Undecided("unique")

    def __repr__(self):
        n = len(self)
        xs = self.vals if self.vals is not None else [
            None if self.valid is not None and not self.valid[i] else self.arr.buf.elems[self.arr.pos[i]] for i in range(n)
        ]
        return f"<{self.t.n} {xs!r}>"


CLASS = {
    "large_string": "LargeStringArray", "string": "StringArray", "double": "DoubleArray", "int64": "Int64Array",
    "timestamp": "TimestampArray", "bool": "BooleanArray", "null": "NullArray", "uint32": "UInt32Array",
}


class ChunkedV(AbsVal):
    """pyarrow.ChunkedArray"""

    __slots__ = ("chunks", "t")
    kind = "pa.ChunkedArray"

    def __init__(self, t, chunks):
        self.t, self.chunks = t, list(chunks)

    def v_truth(self, eng):
        return self.v_len(eng) > 0

    def v_len(self, eng):
        return sum(len(c) for c in self.chunks)

    def v_iter(self, eng, cb):
        for c in self.chunks:
            c.v_iter(eng, cb)
        return None

    def whole(self, eng):
        return PaArr(self.t, [x for c in self.chunks for x in c.items(eng)])

    def v_isinstance(self, eng, cls):
        return cls is object or (isinstance(cls, ExtV) and cls.name in ("pyarrow.ChunkedArray", "pyarrow.lib.ChunkedArray"))

    def v_getitem(self, eng, i):
        return self.whole(eng).v_getitem(eng, i)

    def v_getattr(self, eng, name):
        if name == "combine_chunks":
            return Builtin(name, lambda e, a, k: self.chunks[0] if len(self.chunks) == 1 else self.whole(e))
        if name == "type":
            return self.t
        if name == "chunks":
            return ListV(self.chunks)
        if name == "num_chunks":
            return len(self.chunks)
        if name == "chunk":
            return Builtin(name, lambda e, a, k: self.chunks[a[0]])
        if name == "cast":
            return Builtin(name, lambda e, a, k: ChunkedV(pa_type(e, a[0]), [c.m_cast(e, a, k) for c in self.chunks]))
        return self.whole(eng).v_getattr(eng, name)

    def __repr__(self):
        return f"<chunks {self.chunks!r}>"


class TableV(AbsVal):
    """pyarrow.Table"""

    __slots__ = ("cols", "names")
    kind = "pa.Table"

    def __init__(self, cols, names):
        self.cols, self.names = list(cols), list(names)

    def v_truth(self, eng):
        return True

    def v_len(self, eng):
        return len(self.cols[0]) if self.cols else 0

    def v_isinstance(self, eng, cls):
        return cls is object or (isinstance(cls, ExtV) and cls.name in ("pyarrow.Table", "pyarrow.lib.Table"))

    def v_getattr(self, eng, name):
        if name in ("column_names",):
            return ListV(self.names)
        if name == "num_rows":
            return self.v_len(eng)
        if name == "num_columns":
            return len(self.cols)
        if name == "columns":
            return ListV(self.cols)
        if name == "column":
            return Builtin(name, lambda e, a, k: self.v_getitem(e, a[0]))
        if name == "schema":
            return SchemaV([FieldV(n, as_pa(eng, c).t) for n, c in zip(self.names, self.cols)])
        if name == "cast":
            return Builtin(name, lambda e, a, k: table_cast(e, self, a, k))
        if name == "select":
            return Builtin(name, lambda e, a, k: make_table(e, [self.v_getitem(e, i) for i in e.to_list(a[0])], [i if isinstance(i, str) else self.names[i] for i in e.to_list(a[0])]))
        if name == "combine_chunks":
            return Builtin(name, lambda e, a, k: self)
        if name == "rename_columns":
            return Builtin(name, lambda e, a, k: make_table(e, self.cols, e.to_list(a[0])))
        if name == "filter":
            return Builtin(name, lambda e, a, k: TableV([pa_filter(e, c, a[0]) for c in self.cols], self.names))
        if name == "slice":
            return Builtin(name, lambda e, a, k: TableV([c.m_slice(e, a, k) for c in self.cols], self.names))
        if name == "set_column":
            def put(e, a, k):
                cols, names = list(self.cols), list(self.names)
                cols[a[0]], names[a[0]] = a[2], a[1]
                return make_table(e, cols, names)
            return Builtin(name, put)
        if name == "append_column":
            return Builtin(name, lambda e, a, k: make_table(e, [*self.cols, a[1]], [*self.names, a[0]]))
        raise Undecided(f"Table.{name}")

    def v_getitem(self, eng, i):
        if isinstance(i, str):
            if self.names.count(i) != 1:
                eng.throw(KeyError, i)
            i = self.names.index(i)
        if not isinstance(i, int):
            raise Undecided(f"column {short(i)}")
        if not -len(self.cols) <= i < len(self.cols):
            eng.throw(IndexError, "Table column index out of range")
        return self.cols[i]

    def __repr__(self):
        return f"<table {self.names!r}>"


class FieldV(AbsVal):
    """pyarrow.Field"""

    __slots__ = ("name", "t")
    kind = "pa.Field"

    def __init__(self, name, t):
        self.name, self.t = name, t

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        if name in ("name", "type", "nullable"):
            return {"name": self.name, "type": self.t, "nullable": True}[name]
        if name == "with_type":
            return Builtin(name, lambda e, a, k: FieldV(self.name, pa_type(e, a[0])))
        if name == "with_name":
            return Builtin(name, lambda e, a, k: FieldV(a[0], self.t))
        raise Undecided(f"Field.{name}")


class SchemaV(AbsVal):
    """pyarrow.Schema"""

    __slots__ = ("fields",)
    kind = "pa.Schema"

    def __init__(self, fields):
        self.fields = list(fields)

    def v_truth(self, eng):
        return True

    def v_len(self, eng):
        return len(self.fields)

    def v_iter(self, eng, cb):
        for f in self.fields:
            cb(f)
        return True

    def v_getitem(self, eng, i):
        if isinstance(i, int):
            return self.fields[i]
        raise Undecided(f"field {short(i)}")

    def v_isinstance(self, eng, cls):
        return cls is object or (isinstance(cls, ExtV) and cls.name in ("pyarrow.Schema", "pyarrow.lib.Schema"))

    def v_getattr(self, eng, name):
        if name == "names":
            return ListV([f.name for f in self.fields])
        if name == "types":
            return ListV([f.t for f in self.fields])
        if name == "field":
            return Builtin(name, lambda e, a, k: self.v_getitem(e, a[0]))
        if name == "set":
            return Builtin(name, lambda e, a, k: SchemaV([a[1] if i == a[0] else f for i, f in enumerate(self.fields)]))
        raise Undecided(f"Schema.{name}")


def pa_field(eng, a, k):
    return FieldV(arg(a, k, 0, "name"), pa_type(eng, arg(a, k, 1, "type")))


def pa_schema(eng, a, k):
    x = arg(a, k, 0, "fields")
    if isinstance(x, DictV):
        return SchemaV([FieldV(n, pa_type(eng, t)) for n, t in x.items.values()])
    if isinstance(x, SchemaV):
        return x
    return SchemaV([f if isinstance(f, FieldV) else FieldV(*eng.to_list(f)) for f in eng.to_list(x)])


def table_cast(eng, t, a, k):
    s, safe = arg(a, k, 0, "target_schema"), arg(a, k, 1, "safe")
    if not isinstance(s, SchemaV):
        raise Undecided("Table.cast")
    if [f.name for f in s.fields] != list(t.names):
        eng.throw(ValueError, "Target schema's field names are not matching the table's field names")
    return TableV([cast(eng, as_pa(eng, c), f.t, safe is None or eng.truth(safe)) for c, f in zip(t.cols, s.fields)], t.names)


TESTS = {
    "is_null": lambda t: t.n == "null", "is_boolean": lambda t: t.n == "bool", "is_timestamp": lambda t: t.base == "timestamp",
    "is_string": lambda t: t.n == "string", "is_unicode": lambda t: t.n == "string", "is_large_string": lambda t: t.n == "large_string",
    "is_large_unicode": lambda t: t.n == "large_string", "is_binary": lambda t: t.n == "binary", "is_large_binary": lambda t: t.n == "large_binary",
    "is_float32": lambda t: t.n == "float", "is_float64": lambda t: t.n == "double", "is_int64": lambda t: t.n == "int64",
    "is_int32": lambda t: t.n == "int32", "is_uint32": lambda t: t.n == "uint32", "is_uint64": lambda t: t.n == "uint64",
    "is_floating": lambda t: t.n in ("halffloat", "float", "double"), "is_duration": lambda t: t.base == "duration",
    "is_integer": lambda t: t.n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"),
    "is_date": lambda t: t.base in ("date32", "date64"), "is_date32": lambda t: t.base == "date32", "is_date64": lambda t: t.base == "date64",
    "is_time": lambda t: t.base in ("time32", "time64"),
    "is_temporal": lambda t: t.base in ("timestamp", "date32", "date64", "time32", "time64", "duration"),
}


# ------------------------------------------------------------------ casts and kernels

FLOAT_TEXT = _re.compile(r"[+-]?(?:(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?|(?i:inf|infinity|nan))")
TICKS = {"s": 1, "ms": 1000, "us": 10**6, "ns": 10**9}


def invalid(eng, msg):
    eng.throw(ExtV("pyarrow.ArrowInvalid"), msg)


def cast(eng, arr, t, safe=True):
    if isinstance(arr, ChunkedV):
        return ChunkedV(t, [cast(eng, c, t, safe) for c in arr.chunks])
    if arr.t.n == t.n:
        return arr
    check_pair(eng, arr.t, t)
    return PaArr(t, [cast_value(eng, x, arr.t, t, safe) for x in arr.items(eng)])


def unsupported(eng, f, t):
    eng.throw(ExtV("pyarrow.ArrowNotImplementedError"), f"Unsupported cast from {f.n} to {t.n}")


def check_pair(eng, f, t):
    """Pairs of types without a kernel fail whatever the values."""
    if f.n in ("null", t.n):
        return
    fd, td = phys(f), phys(t)
    number = f.n in PHYS and f.base not in ("date32", "date64")
    to_number = t.n in PHYS and t.base not in ("date32", "date64")
    moment, to_moment = f.base == "timestamp", t.base == "timestamp"
    timed = t.base in ("time32", "time64", "duration")
    if (
        t.n == "null"
        or (t.n in ("binary", "large_binary") and not is_text(f) and f.base != "binary")
        or (number and is_float(fd) and (to_moment or t.base.startswith(("date", "time")) or timed))
        or (moment and to_number and td != "i8")
        or (moment and (t.n == "bool" or t.base == "duration"))
        or (f.n == "bool" and (to_moment or t.base.startswith(("date", "time")) or timed))
        or (is_text(f) and timed)
        or (number and fd == "i8" and t.base in ("date32", "time32"))
    ):
        unsupported(eng, f, t)


def perhaps(eng, v, f, t):
    """Whether a text can be cast, the same whenever it is asked."""
    k = ("castable", ckey(v), f.n, t.n)
    if k not in eng.path.data:
        eng.path.data[k] = eng.choose(2, f"{v!r} can be cast to {t.n}", ("no", "yes"))
    return eng.path.data[k]


ISO = _re.compile(r"(\d{4})-(\d\d)-(\d\d)(?:[ T](\d\d):(\d\d)(?::(\d\d))?)?")


def iso_moment(v):
    """Milliseconds of a date known here."""
    import datetime

    m = ISO.fullmatch(v) if isinstance(v, str) else None
    if m is None:
        return None
    try:
        d = datetime.datetime(*(int(x or 0) for x in m.groups()))
    except ValueError:
        return None
    return (d - datetime.datetime(1970, 1, 1)) // datetime.timedelta(milliseconds=1)


def cast_value(eng, v, f, t, safe):
    """One value cast to another type (or the error of the kernel)."""
    if f.n == t.n:
        return v
    fd, td = phys(f), phys(t)
    number = f.n in PHYS and f.base not in ("date32", "date64")
    to_number = t.n in PHYS and t.base not in ("date32", "date64")
    moment, to_moment = f.base == "timestamp", t.base == "timestamp"
    if f.n == "null":
        return None
    if is_text(f) and t.n in ("string", "large_string"):
        return v
    if t.n in ("binary", "large_binary") and is_text(f):
        return v
    check_pair(eng, f, t)
    if v is None:
        return None
    if is_text(t):
        if number and fd != "f8":
            k = shown_key(eng, v, fd)
            if is_int(fd) and type(k) is int:
                return str(k)
            return Term("shown", (k, "int64" if is_int(fd) else f.n), "str")
        if fd:
            return Term("shown", (shown_key(eng, v, fd), f.n), "str")
        if f.n == "bool":
            return "true" if v else "false"
        return Term("shown", (v, f.n), "str")
    if is_text(f):
        if to_number and is_float(td):
            return parse_float(eng, v)
        if to_number:
            return parse_int(eng, v, td)
        if t.n == "bool":
            if is_conc(v):
                if v.lower() in ("true", "1"):
                    return True
                if v.lower() in ("false", "0"):
                    return False
                invalid(eng, f"Failed to parse string: '{v}' as a scalar of type bool")
            if perhaps(eng, v, f, t) == 0:
                invalid(eng, "not a boolean")
            return Term("cast", (v, f.n, t.n))
        m = iso_moment(v) if is_conc(v) else eng.path.data.get("dates", {}).get(ckey(v), {}).get("iso") if to_moment else None
        if m is None or t.tz:
            if is_conc(v) or to_moment:
                invalid(eng, f"Failed to parse string: '{v}' as a scalar of type {t.n}")
            if perhaps(eng, v, f, t) == 0:
                invalid(eng, f"Failed to parse string as a scalar of type {t.n}")
            return Term("cast", (v, f.n, t.n))
        if not to_moment:
            if m % 86400000 and t.base == "date32":
                invalid(eng, f"Failed to parse string: '{v}' as a scalar of type {t.n}")
            return m // 86400000 if t.base == "date32" else m
        return N.plain(N.scale(N.num(m), Fraction(TICKS[t.unit], 1000)))
    if f.n == "bool":
        if to_number:
            return convert(eng, v, "b1", td)
        unsupported(eng, f, t)
    if number and to_number:
        if is_float(fd) and is_int(td):
            v = norm(eng, v, fd)
            if isinstance(v, float):
                ok = math.isfinite(v) and v == int(v) and wrap(int(v), td) == int(v)
            else:
                ok = not safe or (N.decide_eq(eng, N.sub(N.trunc(eng, v), v)) and fits(eng, v, td))
            if safe and not ok:
                invalid(eng, f"Float value {v!r} was truncated converting to {t.n}")
            return convert(eng, v, fd, td)
        if is_int(fd) and is_int(td):
            w = convert(eng, v, fd, td)
            if safe and not fits(eng, as_num(eng, v, fd), td):
                invalid(eng, f"Integer value {v!r} not in range of {t.n}")
            return w
        if is_int(fd) and safe:
            x, top = as_num(eng, v, fd), 1 << (24 if td == "f4" else 53)
            if not (N.decide_ge(eng, N.sub(x, Num({}, -top))) and N.decide_ge(eng, N.sub(Num({}, top), x))):
                invalid(eng, f"Integer value {v!r} not in range of {t.n}")
        return convert(eng, v, fd, td)
    if number and t.n == "bool":
        return truth(eng, v, fd)
    if number and is_int(fd) and (to_moment or t.base in ("date32", "date64", "time32", "time64", "duration")):
        return convert(eng, v, fd, td)
    if moment and t.n == "int64":
        return v
    if moment and to_moment:
        p, q = TICKS[f.unit], TICKS[t.unit]
        x = as_num(eng, v, "i8")
        if q >= p:
            return norm(eng, N.scale(x, q // p), "i8")
        r = N.trunc(eng, N.scale(x, Fraction(q, p)))
        if safe and not N.decide_eq(eng, N.sub(N.scale(N.num(r), Fraction(p, q)), x)):
            invalid(eng, f"Casting from {f.n} to {t.n} would lose data")
        return norm(eng, r, "i8")
    if moment:
        day = N.scale(as_num(eng, v, "i8"), Fraction(1, TICKS[f.unit] * 86400))
        if t.base == "date32":
            return norm(eng, N.floor(eng, day), "i4")
        if t.base == "date64":
            return norm(eng, N.scale(N.num(N.floor(eng, day)), 86400000), "i8")
        if t.base in ("time32", "time64"):
            x = N.scale(N.sub(day, N.num(N.floor(eng, day))), 86400 * TICKS[t.unit])
            r = N.trunc(eng, x)
            if safe and not N.decide_eq(eng, N.sub(r, x)):
                invalid(eng, "would lose data")
            return norm(eng, r, "i8")
    if perhaps(eng, v, f, t) == 0:
        invalid(eng, f"cast from {f.n} to {t.n}")
    return Term("cast", (shown_key(eng, v, fd or "O"), f.n, t.n))


def shown_key(eng, v, d):
    v = norm(eng, v, d)
    if isinstance(v, W):
        return N.from_bits(v.bits, d[0] == "i")
    return v


def fits(eng, v, d):
    x = N.num(v)
    if x is None:
        return False
    w = 8 * SIZE[d]
    lo, hi = (0, (1 << w) - 1) if d[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return N.decide_ge(eng, N.sub(x, Num({}, lo))) and N.decide_ge(eng, N.sub(Num({}, hi), x))


def parse_float(eng, v):
    if isinstance(v, bytes):
        v = v.decode()
    if isinstance(v, str):
        if FLOAT_TEXT.fullmatch(v):
            return float(v)
        invalid(eng, f"Failed to parse string: '{v}' as a scalar of type double")
    x = number_of(eng, v)
    if x is None:
        invalid(eng, f"Failed to parse string: {v!r} as a scalar of type double")
    return float(x) if isinstance(x, int) else x


def parse_int(eng, v, d):
    if isinstance(v, str):
        if _re.fullmatch(r"-?\d+", v) and wrap(int(v), d) == int(v):
            return int(v)
        invalid(eng, f"Failed to parse string: '{v}' as a scalar of type {LONG[d]}")
    x = number_of(eng, v)
    if x is None or N.num(x) is None or not N.integral(N.num(x)) or not fits(eng, x, d):
        invalid(eng, f"Failed to parse string: {v!r} as a scalar of type {LONG[d]}")
    return norm(eng, x, d)


def pa_filter(eng, arr, mask, nulls="drop"):
    if isinstance(arr, ChunkedV):
        arr = arr.whole(eng)
    if isinstance(mask, (Arr, ListV, tuple)):
        mask = PaArr(PaT("bool"), [m.v if isinstance(m, NpBool) else m for m in eng.to_list(mask)])
    if not isinstance(mask, PaArr):
        raise Undecided(f"filter by {short(mask)}")
    if mask.t.n != "bool":
        eng.throw(ExtV("pyarrow.ArrowNotImplementedError"), "Function 'array_filter' has no kernel matching input types")
    if len(mask) != len(arr):
        invalid(eng, "Filter inputs must all be the same length")
    xs = []
    for x, m in zip(arr.items(eng), mask.items(eng)):
        if m is None:
            if nulls != "drop":
                xs.append(None)
        elif m:
            xs.append(x)
    return PaArr(arr.t, xs)


def foreign(eng, what):
    from .engine import Violation

    raise Violation(what)


def pa_take(eng, arr, idx, check):
    if isinstance(arr, ChunkedV):
        arr = arr.whole(eng)
    if isinstance(idx, (Arr, ListV, tuple)):
        items, d = (idx.items(eng), idx.d) if isinstance(idx, Arr) else (eng.to_list(idx), "i8")
    elif isinstance(idx, PaArr):
        items, d = idx.items(eng), phys(idx.t)
        if d is None or is_float(d):
            if idx.t.n == "null":
                return PaArr(arr.t, [None] * len(idx))
            eng.throw(ExtV("pyarrow.ArrowNotImplementedError"), "Function 'array_take' has no kernel matching input types")
    else:
        raise Undecided(f"take by {short(idx)}")
    n = len(arr)
    out_ = []
    for i in items:
        if i is None:
            out_.append(None)
            continue
        i = norm(eng, i, d)
        inside = compare(eng, "GtE", i, d, 0, "i8") and compare(eng, "Lt", i, d, n, "i8")
        if not inside:
            if check:
                eng.throw(ExtV("pyarrow.ArrowIndexError"), f"Index {i!r} out of bounds")
            foreign(eng, f"an index that may be outside of the array of {n} is taken without a check of bounds")
        if not isinstance(i, int):
            i = next((j for j in range(n) if compare(eng, "Eq", i, d, j, "i8")), None)
            if i is None:
                raise Undecided("index")
        out_.append(arr.get(eng, i))
    return PaArr(arr.t, out_)


def is_null(eng, arr, nan=False):
    if isinstance(arr, ChunkedV):
        arr = arr.whole(eng)
    f = arr.t.n in ("double", "float")
    return PaArr(PaT("bool"), [x is None or (nan and f and isinstance(x, float) and math.isnan(x)) for x in arr.items(eng)])


def fill_null(eng, arr, v):
    if isinstance(arr, ChunkedV):
        arr = arr.whole(eng)
    v = v.v if isinstance(v, ScalarV) else v
    d = phys(arr.t)
    if d:
        o = operand(eng, v)
        if o is None:
            raise Undecided(f"fill with {short(v)}")
        v = convert(eng, o[2], o[1], d)
    if arr.t.n == "null":
        raise Undecided("fill of an array without type")
    return PaArr(arr.t, [v if x is None else x for x in arr.items(eng)])


def pa_sum(eng, arr):
    xs = [x for x in arr.items(eng) if x is not None]
    if not xs:
        return ScalarV(PaT("uint64" if arr.t.n == "bool" else "int64"), None)
    if arr.t.n == "bool":
        return ScalarV(PaT("uint64"), sum(xs))
    d = phys(arr.t)
    if d is None:
        eng.throw(ExtV("pyarrow.ArrowNotImplementedError"), "Function 'sum' has no kernel matching input types")
    r = 0
    for x in xs:
        r = elem(eng, "Add", r, x, d)
    return ScalarV(arr.t, r)


def bool_items(eng, x):
    if isinstance(x, ChunkedV):
        x = x.whole(eng)
    if isinstance(x, PaArr):
        if x.t.n != "bool":
            eng.throw(ExtV("pyarrow.ArrowNotImplementedError"), "no kernel matching input types")
        return x.items(eng)
    if isinstance(x, ScalarV):
        return x.v
    if isinstance(x, (bool, NpBool)):
        return eng.truth(x)
    if isinstance(x, (ListV, Arr)):
        return [eng.truth(v) for v in eng.to_list(x)]
    raise Undecided(f"boolean array of {short(x)}")


def pa_logic(op, kleene=False):
    def f(eng, a, k):
        x, y = bool_items(eng, a[0]), bool_items(eng, a[1])
        n = len(x) if isinstance(x, list) else (len(y) if isinstance(y, list) else None)
        if n is None:
            raise Undecided("logic of scalars")
        xs = x if isinstance(x, list) else [x] * n
        ys = y if isinstance(y, list) else [y] * n
        if len(xs) != len(ys):
            invalid(eng, "Array arguments must all be the same length")

        def one(p, q):
            if kleene:
                if op == "and" and (p is False or q is False):
                    return False
                if op == "or" and (p is True or q is True):
                    return True
            if p is None or q is None:
                return None
            return {"and": p and q, "or": p or q, "xor": p != q, "and_not": p and not q}[op]

        return PaArr(PaT("bool"), [one(p, q) for p, q in zip(xs, ys)])

    return f


def pa_invert(eng, a, k):
    if isinstance(a[0], ScalarV):
        return ScalarV(a[0].t, None if a[0].v is None else not a[0].v)
    return PaArr(PaT("bool"), [None if x is None else not x for x in bool_items(eng, a[0])])


class OptV(AbsVal):
    """Options of a compute function."""

    __slots__ = ("args",)
    kind = "options"

    def __init__(self, **args):
        self.args = args

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        return self.args.get(name, NotImplemented) if name in self.args else NotImplemented

    def __repr__(self):
        return f"<options {self.args!r}>"


def options(*names, **defaults):
    def f(eng, a, k):
        if len(a) > len(names):
            eng.throw(TypeError, "too many arguments")
        d = dict(defaults)
        d.update(zip(names, a))
        for x in k:
            if x not in names:
                eng.throw(TypeError, f"unexpected keyword argument {x!r}")
        d.update(k)
        return OptV(**d)

    return f


def opt(a, n):
    """Options among the arguments of a registered function call: [*arrays, options]."""
    o = a[n] if len(a) > n else None
    return o.args if isinstance(o, OptV) else {}


def k_cast(eng, a, k):
    o = opt(a, 1)
    if "target_type" not in o or o["target_type"] is None:
        invalid(eng, "Cast requires that options.to_type be populated")
    return cast(eng, as_pa(eng, a[0]), pa_type(eng, o["target_type"]), o.get("safe", True))


def as_pa(eng, v):
    if isinstance(v, (PaArr, ChunkedV)):
        return v.whole(eng) if isinstance(v, ChunkedV) else v
    if isinstance(v, (Arr, ListV)):
        return pa_array(eng, [v], {})
    raise Undecided(f"array of {short(v)}")


def no_number(pat, x):
    """No text of a number or an instant matches the pattern."""
    if not (isinstance(x, Term) and x.op == "shown" and isinstance(pat, (str, bytes))):
        return False
    try:
        tree = _sre.parse(pat)
    except _re.error:
        return False
    return wants_letter(tree)


NUMERIC_CHARS = frozenset(map(ord, "0123456789.+-:_ eEinfatyINFATYTZ"))


def wants_letter(tree):
    """Whatever matches has a character that numbers and instants do not have."""

    def foreign(c):
        return not {ord(x) for x in (chr(c), chr(c).lower(), chr(c).upper()) if len(x) == 1} & NUMERIC_CHARS

    def one(op, av):
        if op is _sre.LITERAL:
            return foreign(av)
        if op is _sre.IN:
            return all(o is _sre.LITERAL and foreign(v) for o, v in av)
        if op is _sre.SUBPATTERN:
            return wants_letter(av[-1])
        if op is _sre.BRANCH:
            return all(wants_letter(b) for b in av[1])
        if op in (_sre.MAX_REPEAT, _sre.MIN_REPEAT):
            return av[0] > 0 and wants_letter(av[2])
        return False

    return any(one(op, av) for op, av in tree)


def text_moment(eng, text, fmt, unit):
    """Instant a text denotes in a format, or None."""
    t = eng.path.data.get("dates", {}).get(ckey(text))
    if t is None:
        return None
    m = t.get(fmt)
    if m is None:
        return None
    return norm(eng, N.scale(N.num(m), Fraction(TICKS[unit], 1000)), "i8")


def k_strptime(eng, a, k):
    o = opt(a, 1)
    arr = as_pa(eng, a[0])
    if not is_text(arr.t):
        eng.throw(ExtV("pyarrow.ArrowNotImplementedError"), "Function 'strptime' has no kernel matching input types")
    fmt, unit = o["format"], o["unit"]
    r = []
    for x in arr.items(eng):
        m = None if x is None else text_moment(eng, x, fmt, unit)
        if m is None and x is not None and not eng.truth(o.get("error_is_null", False)):
            invalid(eng, f"Failed to parse string: {x!r} as a scalar of type timestamp[{unit}]")
        r.append(m)
    return PaArr(PaT(f"timestamp[{unit}]", unit), r)


def k_match(eng, a, k):
    o = opt(a, 1)
    arr = as_pa(eng, a[0])
    if not is_text(arr.t):
        eng.throw(ExtV("pyarrow.ArrowNotImplementedError"), "Function 'match_substring_regex' has no kernel matching input types")
    pat, ic = o["pattern"], eng.truth(o.get("ignore_case", False))
    r = []
    for x in arr.items(eng):
        if x is None:
            r.append(None)
        elif is_conc(x) and is_conc(pat):
            try:
                r.append(bool(_re.search(pat, x, _re.IGNORECASE if ic else 0)))
            except _re.error:
                if isinstance(pat, str) and "(?" in pat:
                    raise Undecided(f"what the pattern {pat!r} means") from None
                invalid(eng, f"Invalid regular expression: {pat!r}")
        else:
            r.append(not no_number(pat, x) and eng.lit(Term("matches", (pat, x, ic), "bool")))
    return PaArr(PaT("bool"), r)


def k_indices(eng, a, k):
    arr = as_pa(eng, a[0])
    r = [i for i, x in enumerate(arr.items(eng)) if x is not None and (x if isinstance(x, bool) else truth(eng, x, phys(arr.t)))]
    return PaArr(PaT("uint64"), r)


def k_take(eng, a, k):
    return pa_take(eng, as_pa(eng, a[0]), a[1], eng.truth(opt(a, 2).get("boundscheck", True)))


def k_filter(eng, a, k):
    return pa_filter(eng, as_pa(eng, a[0]), a[1], opt(a, 2).get("null_selection_behavior", "drop"))


def pa_array(eng, a, k):
    v = arg(a, k, 0, "obj")
    t = arg(a, k, 1, "type")
    t = pa_type(eng, t) if t is not None else None
    mask = k.get("mask")
    if isinstance(v, PaArr):
        return v if t is None else cast(eng, v, t)
    if isinstance(v, Arr):
        d = v.d
        names = {b: a for a, b in PHYS.items() if a not in ("date32[day]", "date64[ms]")} | {"f8": "double", "i8": "int64", "M8": "timestamp[ms]"}
        if d == "b1":
            f = PaT("bool")
            xs = [truth(eng, x, d) for x in v.items(eng)]
        elif d == "O":
            return pa_array(eng, [ListV(v.items(eng)), *a[1:]], k)
        else:
            f = pa_type(eng, names[d])
            xs = v.items(eng)
            if k.get("from_pandas"):
                xs = [None if isinstance(x, float) and math.isnan(x) else x for x in xs]
        if mask is not None:
            xs = [None if eng.truth(m) else x for x, m in zip(xs, eng.to_list(mask))]
        r = PaArr(f, xs)
        if t is None or t.n == f.n:
            return r
        if is_int(d) and t.base == "timestamp":
            return PaArr(t, xs)
        return cast(eng, r, t)
    xs = [x.v if isinstance(x, (NpBool, ScalarV)) else x for x in eng.to_list(v)]
    if mask is not None:
        xs = [None if eng.truth(m) else x for x, m in zip(xs, eng.to_list(mask))]
    if t is None:
        t = infer(eng, xs)
    d = phys(t)
    r = []
    for x in xs:
        kd = eng.kindof(x)
        if x is None:
            r.append(None)
        elif is_text(t):
            if kd == "bytes":
                if isinstance(x, bytes):
                    try:
                        x = x.decode()
                    except UnicodeDecodeError:
                        invalid(eng, f"Could not convert {x!r} with type bytes: was not a utf8 string")
                else:
                    x = eng.call(eng.getattr(x, "decode"), ["utf-8"], {})
            elif kd not in ("str", "obj"):
                eng.throw(ExtV("pyarrow.ArrowTypeError"), f"Expected bytes, got a '{kd}' object")
            r.append(x)
        elif t.n == "bool":
            if kd != "bool":
                invalid(eng, "tried to convert to boolean")
            r.append(eng.truth(x))
        elif d:
            if kd == "str":
                eng.throw(ExtV("pyarrow.ArrowInvalid") if is_float(d) else ExtV("pyarrow.ArrowTypeError"), "tried to convert to number")
            if isinstance(x, bool):
                invalid(eng, "tried to convert to number")
            if isinstance(x, float) and is_int(d):
                if x != int(x):
                    invalid(eng, "Float value was truncated converting to int")
            if isinstance(x, int) and is_int(d) and wrap(x, d) != x:
                invalid(eng, "Value too large to fit")
            r.append(norm(eng, convert(eng, x, "f8" if isinstance(x, float) else ("i8" if not isinstance(x, Num) or N.integral(x) else "f8"), d), d))
        elif t.n == "null":
            invalid(eng, "Invalid null value")
        else:
            raise Undecided(f"array of {t.n}")
    return PaArr(t, r)


def infer(eng, xs):
    ks = {eng.kindof(x) for x in xs if x is not None}
    if not ks:
        return PaT("null")
    if ks <= {"str", "obj"}:
        return PaT("string")
    if ks == {"bool"}:
        return PaT("bool")
    if ks == {"int"}:
        return PaT("int64")
    if ks <= {"int", "float"}:
        return PaT("double")
    if ks == {"bytes"}:
        return PaT("binary")
    invalid(eng, "cannot infer a type")


def pa_nulls(eng, a, k):
    n = concrete_int(eng, arg(a, k, 0, "size"))
    t = arg(a, k, 1, "type")
    t = pa_type(eng, t) if t is not None else PaT("null")
    if n < 0:
        n = 0  # an array of a negative length holds nothing that could be read
    return PaArr(t, [None] * n)


def pa_repeat(eng, a, k):
    v, n = a[0], concrete_int(eng, a[1])
    if isinstance(v, ScalarV):
        return PaArr(v.t, [v.v] * n)
    return pa_array(eng, [ListV([v] * n)], {})


def pa_scalar(eng, a, k):
    v = arg(a, k, 0, "value")
    t = arg(a, k, 1, "type")
    r = pa_array(eng, [ListV([v]), *([t] if t is not None else [])], {})
    return ScalarV(r.t, r.get(eng, 0))


def pa_chunked(eng, a, k):
    xs = eng.to_list(arg(a, k, 0, "arrays"))
    t = arg(a, k, 1, "type")
    if t is not None:
        t = pa_type(eng, t)
    if not xs:
        if t is None:
            invalid(eng, "cannot construct ChunkedArray from empty vector and omitted type")
        return ChunkedV(t, [PaArr(t, [])])
    xs = [x if isinstance(x, PaArr) else pa_array(eng, [x], {}) for x in xs]
    t = t or xs[0].t
    if any(x.t.n != t.n for x in xs):
        eng.throw(ExtV("pyarrow.ArrowTypeError"), "Array chunks must all be same type")
    return ChunkedV(t, xs)


def pa_concat(eng, a, k):
    xs = eng.to_list(a[0])
    if not xs:
        invalid(eng, "Must pass at least one array")
    if any(x.t.n != xs[0].t.n for x in xs):
        invalid(eng, "arrays to be concatenated must be identically typed")
    return PaArr(xs[0].t, [v for x in xs for v in x.items(eng)])


def pa_py_buffer(eng, a, k):
    v = a[0] if a else k["obj"]
    if isinstance(v, BufV):
        if not v.arr.contiguous():
            eng.throw(BufferError, "memoryview: underlying buffer is not contiguous")
        return BufV(v.arr, True)
    if isinstance(v, Arr):
        if not v.contiguous():
            eng.throw(ValueError, "ndarray is not C-contiguous")
        return BufV(v, True)
    b = to_bytestr(eng, v)
    if b is None:
        raise Undecided(f"buffer of {short(v)}")
    r = Arr("u1", from_bytes(eng, b, "u1"))
    r.ro = True
    return BufV(r, True)


def pa_from_buffers(eng, a, k):
    t, n = pa_type(eng, arg(a, k, 0, "type")), concrete_int(eng, arg(a, k, 1, "length"))
    bufs = eng.to_list(arg(a, k, 2, "buffers"))
    off = concrete_int(eng, arg(a, k, 4, "offset", 0))
    d = phys(t)
    if d is None:
        raise Undecided(f"buffers of {t.n}")
    if bufs[0] is not None:
        raise Undecided("validity bits")
    if len(bufs) != 2:
        eng.throw(ValueError, "Type's expected number of buffers did not match the passed number")
    b = bufs[1]
    if b is None:
        invalid(eng, "Missing data buffer")
    if not isinstance(b, BufV):
        raise Undecided(f"buffer {short(b)}")
    size = len(b.arr) * SIZE[b.arr.d]
    if size < (n + off) * SIZE[d]:
        invalid(eng, f"Buffer #1 too small in array of type {t.n} and length {n}")
    if SIZE[b.arr.d] == SIZE[d]:
        arr = b.arr.m_view(eng, [DT(d)], {})
    else:
        whole = size // SIZE[d] * SIZE[d] // SIZE[b.arr.d]
        arr = reread(eng, b.arr.v_getitem(eng, slice(0, whole)), d)
    return PaArr(t, arr=Arr(d, buf=arr.buf, pos=arr.pos[off : off + n], ro=True))


def make_table(eng, cols, names):
    if len(names) != len(cols):
        eng.throw(ValueError, f"Length of names ({len(names)}) does not match length of arrays ({len(cols)})")
    if len({len(c) for c in cols}) > 1:
        invalid(eng, "Column expected another length")
    for n in names:
        if eng.kindof(n) not in ("str", "obj", "bytes"):
            eng.throw(TypeError, "expected bytes, found another object")
    return TableV(cols, names)


def pa_table(eng, a, k):
    data = arg(a, k, 0, "data")
    names = arg(a, k, 1, "names")
    if isinstance(data, DictV):
        names = [kk for kk, _ in data.items.values()]
        cols = [v for _, v in data.items.values()]
    else:
        cols = eng.to_list(data)
        if names is None:
            s = k.get("schema")
            if s is None:
                eng.throw(ValueError, "Must pass names or schema when constructing Table")
            s = pa_schema(eng, [s], {})
        else:
            s = names if isinstance(names, SchemaV) else None
        if s is not None:
            names = [f.name for f in s.fields]
            if len(cols) != len(names):
                eng.throw(ValueError, "Schema and number of arrays unequal")
            cols = [cast(eng, c.whole(eng) if isinstance(c, ChunkedV) else as_pa(eng, c), f.t) for c, f in zip(cols, s.fields)]
        names = eng.to_list(names)
    cols = [c.whole(eng) if isinstance(c, ChunkedV) else (c if isinstance(c, PaArr) else pa_array(eng, [c], {})) for c in cols]
    t = make_table(eng, cols, names)
    eng.path.data.setdefault("tables", []).append(t)
    return t


def c_wrap(name, n, *opts, **defaults):
    """Function of pyarrow.compute: arguments, then options by position or keyword."""

    def f(eng, a, k):
        k = dict(k)
        if "options" in k:
            o = k.pop("options")
            return eng.lib.calls[f"arrow:{name}"](eng, [*a[:n], o], {})
        k.pop("memory_pool", None)
        d = dict(defaults)
        d.update(zip(opts, a[n:]))
        d.update(k)
        return eng.lib.calls[f"arrow:{name}"](eng, [*a[:n], OptV(**d)], {})

    return f


def pc_cast(eng, a, k):
    t = arg(a, k, 1, "target_type")
    if t is None:
        return k_cast(eng, [a[0], k.get("options")], {})
    safe = arg(a, k, 2, "safe", True)
    x = a[0] if a else k["arr"]
    return cast(eng, as_pa(eng, x), pa_type(eng, t), safe is not False)


# ------------------------------------------------------------------ polars


class PolarsV(AbsVal):
    """A polars.Series made from an arrow array (texts and what strptime makes of them)."""

    __slots__ = ("arr", "ns")
    kind = "series"

    def __init__(self, arr, ns=None):
        self.arr, self.ns = arr, ns

    def v_truth(self, eng):
        eng.throw(TypeError, "the truth value of a Series is ambiguous")

    def v_getattr(self, eng, name):
        if self.ns == "str":
            if name in ("strptime", "to_datetime"):
                return Builtin(name, self.strptime)
            raise Undecided(f"polars str.{name}")
        if name == "str":
            return PolarsV(self.arr, "str")
        if name == "to_arrow":
            return Builtin(name, lambda e, a, k: self.arr)
        raise Undecided(f"polars.Series.{name}")

    def strptime(self, eng, a, k):
        t = arg(a, k, 0, "dtype")
        fmt = arg(a, k, 1, "format")
        if not (isinstance(t, OptV) and "time_unit" in t.args):
            raise Undecided("strptime of another type")
        strict = k.get("strict", True)
        unit = t.args["time_unit"]
        r = []
        for x in self.arr.items(eng):
            m = None if x is None else text_moment(eng, x, fmt, unit)
            if m is None and x is not None and eng.truth(strict):
                eng.throw(ExtV("polars.exceptions.ComputeError"), "strict datetime parsing failed")
            r.append(m)
        return PolarsV(PaArr(PaT(f"timestamp[{unit}]", unit), r))


def math_fn(name, f):
    def g(eng, a, k):
        v = a[0]
        if isinstance(v, W):
            return v
        if not isinstance(v, Num) and isinstance(v, AbsVal):
            v = scalar(eng, "f8", [v])
        if isinstance(v, Num):
            r = f(eng, v)
            return whole(r) if name != "fabs" else N.as_real(r)
        try:
            return getattr(math, name)(v)
        except Exception as e:  # noqa: BLE001
            eng.throw(type(e), *e.args)

    return g


# ------------------------------------------------------------------ registration


def install(c):
    for n, d in NAMES.items():
        if not n.startswith("datetime"):
            c["numpy." + n] = np_scalar(d)
    for n in ("bool", "int", "float", "object"):
        c.pop("numpy." + n, None)
    c["numpy.dtype"] = lambda e, a, k: DT(dtype_of(e, a[0]))
    for n in ("array", "copy"):
        c["numpy." + n] = np_array
    for n in ("asarray", "ascontiguousarray", "atleast_1d", "ravel", "asanyarray"):
        c["numpy." + n] = np_asarray
    c["numpy.where"] = np_where
    c["numpy.any"] = c["numpy.sometrue"] = c["numpy.logical_or.reduce"] = np_any
    c["numpy.all"] = c["numpy.alltrue"] = c["numpy.logical_and.reduce"] = np_all
    c["numpy.sum"] = np_sum
    c["numpy.max"] = c["numpy.amax"] = np_extreme("GtE")
    c["numpy.min"] = c["numpy.amin"] = np_extreme("LtE")
    c["numpy.count_nonzero"] = np_count_nonzero
    c["numpy.flatnonzero"] = np_flatnonzero
    c["numpy.nonzero"] = lambda e, a, k: (np_flatnonzero(e, a, k),)
    for n, f in (("trunc", N.trunc), ("fix", N.trunc), ("floor", N.floor), ("ceil", N.ceil), ("rint", N.nearest)):
        c["numpy." + n] = unary(f)
    c["numpy.abs"] = c["numpy.absolute"] = c["numpy.fabs"] = unary(N.absolute, True)
    c["numpy.round"] = c["numpy.around"] = c["numpy.round_"] = np_round
    c["numpy.modf"] = np_modf
    c["numpy.isnan"] = test(lambda x: isinstance(x, float) and math.isnan(x))
    c["numpy.isfinite"] = test(lambda x: not isinstance(x, float) or math.isfinite(x))
    c["numpy.isinf"] = test(lambda x: isinstance(x, float) and math.isinf(x))
    c["numpy.isnat"] = test(lambda x: x == -(2**63) if isinstance(x, int) else False)
    for n, o in (
        ("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"), ("floor_divide", "FloorDiv"),
        ("mod", "Mod"), ("remainder", "Mod"), ("bitwise_and", "BitAnd"), ("bitwise_or", "BitOr"), ("bitwise_xor", "BitXor"),
        ("left_shift", "LShift"), ("right_shift", "RShift"), ("power", "Pow"), ("fmod", "FMod"),
    ):
        c["numpy." + n] = np_binary(o)
    for n, o in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE")):
        c["numpy." + n] = np_compare(o)
    for n in ("and", "or", "xor"):
        c["numpy.logical_" + n] = np_logical(n)
    c["numpy.logical_not"] = np_logical_not
    c["numpy.invert"] = c["numpy.bitwise_not"] = np_invert
    c["numpy.negative"] = lambda e, a, k: e.unop("USub", a[0])
    c["numpy.compress"] = c["numpy.extract"] = np_compress
    c["numpy.take"] = lambda e, a, k: as_arr(e, a[0]).v_getitem(e, arg(a, k, 1, "indices"))
    c["numpy.repeat"] = np_repeat
    c["numpy.tile"] = np_tile
    c["numpy.full"] = np_full
    c["numpy.zeros"] = np_zeros(0)
    c["numpy.ones"] = np_zeros(1)
    c["numpy.empty"] = np_zeros(0, True)
    c["numpy.zeros_like"] = np_like(0)
    c["numpy.ones_like"] = np_like(1)
    c["numpy.empty_like"] = np_like(0, True)
    c["numpy.full_like"] = np_like(None)
    c["numpy.arange"] = np_arange
    c["numpy.frombuffer"] = np_frombuffer
    c["numpy.fromiter"] = np_fromiter
    c["numpy.concatenate"] = c["numpy.hstack"] = np_concatenate
    c["numpy.iinfo"] = np_iinfo
    c["numpy.finfo"] = np_finfo
    c["numpy.array_equal"] = np_array_equal
    c["numpy.unpackbits"] = np_unpackbits
    c["numpy.errstate"] = lambda e, a, k: LibObj(
        "errstate", __enter__=Builtin("enter", lambda e2, a2, k2: None), __exit__=Builtin("exit", lambda e2, a2, k2: None)
    )
    for n, f in (("trunc", N.trunc), ("floor", N.floor), ("ceil", N.ceil), ("fabs", N.absolute)):
        c["math." + n] = math_fn(n, f)
    for n in ("isnan", "isfinite", "isinf"):
        c["math." + n] = (lambda t: lambda e, a, k: bool(e.truth(e.lib.calls["numpy." + t](e, a, k))))(n)
    # arrow
    for n in ("large_string", "large_utf8", "string", "utf8", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64",
              "float16", "float32", "float64", "bool_", "date32", "date64", "null", "binary", "large_binary"):
        c["pyarrow." + n] = (lambda t: lambda e, a, k: pa_type(e, t))(n)
    c["pyarrow.timestamp"] = lambda e, a, k: PaT(
        f"timestamp[{arg(a, k, 0, 'unit')}{', tz=' + arg(a, k, 1, 'tz') if arg(a, k, 1, 'tz') else ''}]", arg(a, k, 0, "unit"), arg(a, k, 1, "tz")
    )
    for n in ("time32", "time64", "duration"):
        c["pyarrow." + n] = (lambda t: lambda e, a, k: PaT(f"{t}[{a[0]}]", a[0]))(n)
    for n in ("decimal128", "dictionary", "list_"):
        c["pyarrow." + n] = (lambda t: lambda e, a, k: PaT(f"{t}<{', '.join(map(repr, a))}>"))(n)
    for n, pred in TESTS.items():
        c["pyarrow.types." + n] = c["pyarrow.lib.types." + n] = (lambda g: lambda e, a, k: g(pa_type(e, a[0])))(pred)
    c["pyarrow.field"], c["pyarrow.schema"] = pa_field, pa_schema
    c["pyarrow.array"] = c["pyarrow.asarray"] = c["pyarrow.lib.array"] = pa_array
    c["pyarrow.nulls"] = pa_nulls
    c["pyarrow.repeat"] = pa_repeat
    c["pyarrow.scalar"] = pa_scalar
    c["pyarrow.chunked_array"] = pa_chunked
    c["pyarrow.concat_arrays"] = pa_concat
    c["pyarrow.py_buffer"] = pa_py_buffer
    for n in ("Array", "lib.Array", "LargeStringArray", "TimestampArray", "DoubleArray", "UInt32Array", "BooleanArray"):
        c[f"pyarrow.{n}.from_buffers"] = pa_from_buffers
    c["pyarrow.table"] = c["pyarrow.Table.from_arrays"] = c["pyarrow.Table.from_pydict"] = pa_table
    c["arrow:cast"] = k_cast
    c["arrow:strptime"] = k_strptime
    c["arrow:match_substring_regex"] = k_match
    c["arrow:indices_nonzero"] = k_indices
    c["arrow:array_take"] = c["arrow:take"] = k_take
    c["arrow:array_filter"] = c["arrow:filter"] = k_filter
    c["arrow:invert"] = pa_invert
    for n, o, kl in (("or", "or", 0), ("and", "and", 0), ("xor", "xor", 0), ("or_kleene", "or", 1), ("and_kleene", "and", 1), ("and_not", "and_not", 0)):
        c["arrow:" + n] = pa_logic(o, kl)
        c["pyarrow.compute." + n] = c["arrow:" + n]
    c["pyarrow.compute.and_"] = c["arrow:and"]
    c["pyarrow.compute.or_"] = c["arrow:or"]
    c["pyarrow.compute.invert"] = pa_invert
    c["arrow:is_null"] = lambda e, a, k: is_null(e, a[0], e.truth(opt(a, 1).get("nan_is_null", False)))
    c["arrow:is_valid"] = lambda e, a, k: a[0].m_is_valid(e, [], {})
    c["arrow:is_nan"] = lambda e, a, k: a[0].m_is_nan(e, [], {})
    c["arrow:fill_null"] = lambda e, a, k: fill_null(e, a[0], a[1])
    c["arrow:sum"] = lambda e, a, k: pa_sum(e, as_pa(e, a[0]))
    c["arrow:any"] = lambda e, a, k: ScalarV(PaT("bool"), any(x for x in bool_items(e, a[0])))
    c["arrow:all"] = lambda e, a, k: ScalarV(PaT("bool"), all(x is not False for x in bool_items(e, a[0])))
    c["pyarrow.compute.is_null"] = c_wrap("is_null", 1, nan_is_null=False)
    for n in ("is_valid", "is_nan", "sum", "any", "all", "indices_nonzero"):
        c["pyarrow.compute." + n] = c_wrap(n, 1)
    c["pyarrow.compute.fill_null"] = c["arrow:fill_null"]
    c["pyarrow.compute.cast"] = pc_cast
    c["pyarrow.compute.strptime"] = c_wrap("strptime", 1, "format", "unit", "error_is_null", error_is_null=False)
    c["pyarrow.compute.match_substring_regex"] = c_wrap("match_substring_regex", 1, "pattern", ignore_case=False)
    c["pyarrow.compute.take"] = c_wrap("take", 2, boundscheck=True)
    c["pyarrow.compute.array_take"] = c_wrap("array_take", 2, boundscheck=True)
    c["pyarrow.compute.filter"] = c["pyarrow.compute.array_filter"] = c_wrap("filter", 2, "null_selection_behavior", null_selection_behavior="drop")
    c["pyarrow.compute.CastOptions.unsafe"] = lambda e, a, k: OptV(target_type=arg(a, k, 0, "target_type"), safe=False)
    c["pyarrow.compute.CastOptions.safe"] = lambda e, a, k: OptV(target_type=arg(a, k, 0, "target_type"), safe=True)
    c["pyarrow.compute.CastOptions"] = lambda e, a, k: OptV(
        target_type=arg(a, k, 0, "target_type"),
        safe=not any(e.truth(v) for n, v in k.items() if n.startswith("allow_")),
    )
    c["pyarrow.compute.StrptimeOptions"] = options("format", "unit", "error_is_null", error_is_null=False)
    c["pyarrow.compute.MatchSubstringOptions"] = options("pattern", "ignore_case", ignore_case=False)
    c["pyarrow.compute.TakeOptions"] = options("boundscheck", boundscheck=True)
    c["pyarrow.compute.FilterOptions"] = options("null_selection_behavior", null_selection_behavior="drop")
    c["pyarrow.compute.NullOptions"] = options("nan_is_null", nan_is_null=False)
    # polars
    c["polars.from_arrow"] = c["polars.Series"] = lambda e, a, k: PolarsV(as_pa(e, a[-1]))
    c["polars.Datetime"] = lambda e, a, k: OptV(time_unit=arg(a, k, 0, "time_unit", "us"))


_ = IterV

"""Exact numbers in columns: affine forms over symbolic numbers, bits of codes and rounded parts."""
from __future__ import annotations

import math
import struct
from fractions import Fraction

from .bits import BitsV
from .engine import Pruned, Undecided
from .values import *  # noqa: F403
from .values import AbsVal, Aff, Term, is_conc

F = Fraction
HALF = F(1, 2)


class FSym:
    """A symbolic finite number of an interval."""

    def __init__(self, eng, name, lo=None, hi=None, integral=False, lo_open=False, hi_open=False):
        self.name, self.integral = name, integral
        self.lo = None if lo is None else F(lo)
        self.hi = None if hi is None else F(hi)
        self.lo_open, self.hi_open = lo_open, hi_open
        self.excl = set()

    def cut(self, lo=None, hi=None, open_=False):
        if lo is not None:
            if self.integral:
                lo = F(math.floor(lo) + 1 if open_ else math.ceil(lo))
                open_ = False
            if self.lo is None or lo > self.lo or (lo == self.lo and open_):
                self.lo, self.lo_open = lo, open_
        if hi is not None:
            if self.integral:
                hi = F(math.ceil(hi) - 1 if open_ else math.floor(hi))
                open_ = False
            if self.hi is None or hi < self.hi or (hi == self.hi and open_):
                self.hi, self.hi_open = hi, open_
        if self.empty():
            raise Pruned

    def empty(self):
        if self.lo is None or self.hi is None:
            return False
        return self.lo > self.hi or (self.lo == self.hi and (self.lo_open or self.hi_open or self.lo in self.excl))

    def samples(self, n=5):
        lo = self.lo if self.lo is not None else (self.hi - 1000 if self.hi is not None else F(-1000))
        hi = self.hi if self.hi is not None else lo + 2003
        out = []
        for i in range(n):
            v = lo + (hi - lo) * F(2 * i + 1, 2 * n)
            v += (hi - lo) * F(i, 7919 * n)
            if self.integral:
                v = F(math.floor(v))
            if v not in self.excl and lo <= v <= hi:
                out.append(v)
        if not self.lo_open and lo not in self.excl:
            out.append(lo)
        if not self.hi_open and hi not in self.excl:
            out.append(hi)
        return out or [lo]

    def __repr__(self):
        return self.name


class Near:
    """floor(y + 1/2): the integer nearest to a number."""

    __slots__ = ("_h", "y")

    def __init__(self, y):
        self.y = y
        self._h = hash(("near", y))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Near) and o.y == self.y

    def __repr__(self):
        return f"nearest({self.y!r})"


class F64:
    """The double of 64 bits."""

    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = tuple(bits)

    def __hash__(self):
        return hash(self.bits)

    def __eq__(self, o):
        return isinstance(o, F64) and o.bits == self.bits

    def __repr__(self):
        return f"double{BitsV(None, self.bits)!r}"


class Junk:
    """Memory nobody wrote (the slot of a null) or whose reading as this type has no meaning."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<{self.why}>"


# atoms: FSym | Near | F64 | Junk | ("bit", BitSym, k) | ("mul", Num, Num) | ("div", Num, Num)


class Num(AbsVal):
    """Affine form over atoms with rational coefficients. Immutable."""

    __slots__ = ("_h", "c", "k", "real")
    kind = "float"

    def __init__(self, c, k=0, real=False):
        self.real = real  # a float whatever its value (matters to what Python code makes of it)
        self.c = {a: v for a, v in c.items() if v}
        self.k = F(k)
        self._h = hash((frozenset(self.c.items()), self.k))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Num) and o.k == self.k and o.c == self.c

    def v_key(self):
        return ("num", frozenset((a if not isinstance(a, (FSym, Junk)) else ("id", id(a)), v) for a, v in self.c.items()), self.k)

    def __repr__(self):
        bits = {}
        out = []
        for a, v in self.c.items():
            if isinstance(a, tuple) and a[0] == "bit":
                bits.setdefault(a[1], []).append((a[2], v))
            else:
                out.append(f"{'' if v == 1 else str(v) + '*'}{show_atom(a)}")
        for s, ks in bits.items():
            ks.sort()
            out.append(f"<bits {ks[0][0]}..{ks[-1][0]} of {s.name} from {ks[0][1]}>")
        if self.k or not out:
            out.append(str(self.k))
        return "(" + " + ".join(out) + ")"

    # -------------------------------------------------- protocol of values

    def v_truth(self, eng):
        return not decide_eq(eng, self)

    def v_binop(self, eng, op, o, rev):
        if not (isinstance(o, (int, float, Fraction, Num)) or num(o) is not None):
            return NotImplemented
        return arith(eng, op, o, self) if rev else arith(eng, op, self, o)

    def v_unop(self, eng, op):
        if op == "USub":
            return scale(self, -1)
        if op == "UAdd":
            return self
        return NotImplemented

    def v_compare(self, eng, op, o, rev):
        if isinstance(o, (int, float, Fraction, Num)):
            return relation(eng, op, o, self) if rev else relation(eng, op, self, o)
        if op == "Eq":
            return False
        if op == "NotEq":
            return True
        return NotImplemented

    def v_isinstance(self, eng, cls):
        return cls in (float, object) if isinstance(cls, type) else False

    def v_int(self, eng):
        return trunc(eng, self)

    def v_fold(self, eng, name, args, kw):
        if name == "round":
            n = args[1] if len(args) > 1 else kw.get("ndigits")
            return Num(nearest(eng, self).c, num(nearest(eng, self)).k) if n is None else as_real(rounded(eng, self, n))
        if name == "abs":
            return absolute(eng, self)
        if name == "divmod" and len(args) == 2:
            return (eng.binop("FloorDiv", *args), eng.binop("Mod", *args))
        return NotImplemented

    def v_getattr(self, eng, name):
        from .values import Builtin

        if name == "item":
            return Builtin(name, lambda e, a, k: self)
        if name == "real":
            return self
        if name == "astype":
            from . import arrays as A

            return Builtin(name, lambda e, a, k: A.scalar(e, A.dtype_of(e, a[0]), [self]))
        if name == "is_integer":
            return Builtin(name, lambda e, a, k: decide_eq(e, sub(nearest(e, self), self)))
        return NotImplemented


def show_atom(a):
    if isinstance(a, tuple):
        return f"{a[0]}{a[1:]!r}"
    return repr(a)


def num(v):
    """The affine form of an element, or None (inf, nan, other objects)."""
    if isinstance(v, Num):
        return v
    if isinstance(v, bool):
        return Num({}, int(v))
    if isinstance(v, (int, Fraction)):
        return Num({}, v)
    if isinstance(v, float):
        return Num({}, F(v)) if math.isfinite(v) else None
    return None


def plain(v, integral=None):
    """Affine form back to a Python number where it is one."""
    if isinstance(v, Num) and not v.c:
        if v.k.denominator == 1 and integral is not False and not v.real:
            return int(v.k)
        return float(v.k)
    return v


def of(s):
    return Num({s: 1})


def from_bits(bits, signed=False):
    """Number of a bit vector (least significant first, entries 0, 1 or (symbol, k))."""
    c, k = {}, 0
    n = len(bits)
    for i, b in enumerate(bits):
        w = -(1 << i) if signed and i == n - 1 else 1 << i
        b = known(b)
        if b in (0, 1):
            k += b * w
        else:
            a = ("bit", b[0], b[1])
            c[a] = c.get(a, 0) + w
    return Num({a: F(v) for a, v in c.items()}, k)


def known(b):
    if b in (0, 1):
        return b
    r = b[0].bit(b[1])
    return b if r is None else r


def from_double(bits):
    bits = [known(b) for b in bits]
    if all(b in (0, 1) for b in bits):
        return struct.unpack("<d", sum(b << i for i, b in enumerate(bits)).to_bytes(8, "little"))[0]
    return Num({F64(bits): 1})


def canon(x):
    """With bits replaced that have become known."""
    if not isinstance(x, Num):
        return x
    out = None
    for a, v in x.c.items():
        r = a
        if isinstance(a, tuple) and a[0] == "bit":
            r = known((a[1], a[2]))
            if r not in (0, 1):
                r = a
        elif isinstance(a, F64):
            b = tuple(known(b) for b in a.bits)
            if b != a.bits:
                r = from_double(b)
        elif isinstance(a, Near):
            y = canon(a.y)
            if y is not a.y and y != a.y:
                r = near_of(y)
        elif isinstance(a, FSym) and a.lo is not None and a.lo == a.hi:
            r = a.lo
        if r is not a:
            out = out or []
            out.append((a, v, r))
    if not out:
        return x
    c, k = dict(x.c), x.k
    for a, v, r in out:
        del c[a]
    res = Num(c, k, x.real)
    for a, v, r in out:
        if isinstance(r, float) and not math.isfinite(r):
            return r if v > 0 else -r
        res = add(res, scale(num(r) if not isinstance(r, (FSym, Near, F64)) and not isinstance(r, tuple) else Num({r: 1}), v))
    return res


def add(a, b, s=1):
    c = dict(a.c)
    for t, v in b.c.items():
        c[t] = c.get(t, 0) + s * v
    return Num(c, a.k + s * b.k, a.real or b.real)


def as_real(x):
    return Num(x.c, x.k, True) if isinstance(x, Num) and not x.real else x


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    n = F(n)
    return Num({t: v * n for t, v in a.c.items()}, a.k * n, a.real)


# ------------------------------------------------------------------ bounds


def atom_integral(a):
    if isinstance(a, FSym):
        return a.integral
    return isinstance(a, Near) or (isinstance(a, tuple) and a[0] == "bit")


def integral(x):
    return x.k.denominator == 1 and all(atom_integral(a) and v.denominator == 1 for a, v in x.c.items())


def atom_bounds(a):
    """(lo, lo_open, hi, hi_open)"""
    if isinstance(a, FSym):
        return a.lo, a.lo_open, a.hi, a.hi_open
    if isinstance(a, tuple) and a[0] == "bit":
        b = known((a[1], a[2]))
        return (F(b), False, F(b), False) if b in (0, 1) else (F(0), False, F(1), False)
    if isinstance(a, Near):
        lo, lo_o, hi, hi_o = bounds(a.y)
        nl = None if lo is None else F(math.floor(lo + HALF))
        nh = None if hi is None else F(math.floor(hi + HALF))
        if nh is not None and hi_o and hi + HALF == nh:
            nh -= 1
        return nl, False, nh, False
    return None, False, None, False


def bounds(x):
    lo = hi = x.k
    lo_o = hi_o = False
    for a, v in x.c.items():
        l, l_o, h, h_o = atom_bounds(a)
        if v < 0:
            l, l_o, h, h_o = h, h_o, l, l_o
        if lo is not None:
            lo = None if l is None else lo + v * l
            lo_o = lo_o or l_o
        if hi is not None:
            hi = None if h is None else hi + v * h
            hi_o = hi_o or h_o
    return lo, lo_o, hi, hi_o


# ------------------------------------------------------------------ decisions


def decide_ge(eng, d, strict=False):
    """Whether d >= 0 (d > 0 if strict); forks and learns where both are possible."""
    d = canon(d)
    if isinstance(d, float):
        return d > 0 if strict else d >= 0
    lo, lo_o, hi, hi_o = bounds(d)
    if lo is not None and (lo > 0 or (lo == 0 and (not strict or lo_o))):
        return True
    if hi is not None and (hi < 0 or (hi == 0 and (strict or hi_o))):
        return False
    if len(d.c) == 1:
        (a, v), = d.c.items()
        t = -d.k / v  # a >= t (v > 0) or a <= t (v < 0)
        if isinstance(a, FSym):
            word = (">" if strict else ">=") if v > 0 else ("<" if strict else "<=")
            yes = eng.choose(2, f"{a.name} {word} {float(t)}", ("true", "false")) == 0
            if v > 0:
                a.cut(lo=t, open_=strict) if yes else a.cut(hi=t, open_=not strict)
            else:
                a.cut(hi=t, open_=strict) if yes else a.cut(lo=t, open_=not strict)
            return yes
        if isinstance(a, Near):
            # nearest(y) >= t  <=>  y >= ceil(t) - 1/2
            if v > 0:
                n = math.floor(t) + 1 if strict else math.ceil(t)
                return decide_ge(eng, add(a.y, Num({}, HALF - n)))
            n = math.ceil(t) - 1 if strict else math.floor(t)  # nearest(y) <= n  <=>  y < n + 1/2
            return decide_ge(eng, sub(Num({}, n + HALF), a.y), True)
    if all(isinstance(a, tuple) and a[0] == "bit" for a in d.c):
        a = max(d.c, key=lambda a: abs(d.c[a]))
        a[1].choose_bit(a[2])
        return decide_ge(eng, d, strict)
    if any(isinstance(a, Junk) for a in d.c):
        return eng.choose(2, f"{d!r} {'>' if strict else '>='} 0", ("true", "false")) == 0
    r = by_leading(eng, d)
    if r is not None:
        return r if r in (True, False) else decide_ge(eng, d, strict)
    raise Undecided(f"sign of {d!r}")


def by_leading(eng, d):
    """Sign of a form whose largest term outweighs the others except close to one value: True, False, "again" or None."""
    best = None
    for a, v in d.c.items():
        if isinstance(a, FSym) and a.lo is not None and a.hi is not None:
            w = abs(v) * (a.hi - a.lo)
            if best is None or w > best[0]:
                best = (w, a, v)
    if best is None:
        return None
    w, a, v = best
    rest = Num({b: u for b, u in d.c.items() if b is not a}, d.k)
    lo, _, hi, _ = bounds(rest)
    if lo is None or hi is None or hi - lo >= w:
        return None
    # v*a + rest > 0 beyond -lo, < 0 below -hi
    p, q = -lo / v, -hi / v
    if v < 0:
        p, q = q, p  # a <= p': positive for small a
        up, down = (lambda: a.cut(hi=-lo / v, open_=True)), (lambda: a.cut(lo=-hi / v, open_=True))
    else:
        up, down = (lambda: a.cut(lo=-lo / v, open_=True)), (lambda: a.cut(hi=-hi / v, open_=True))
    k = eng.choose(3, f"{a.name} against {float(p)}", ("above", "below", "close"))
    if k == 0:
        up()
        return True
    if k == 1:
        down()
        return False
    before = (a.lo, a.hi)
    a.cut(lo=min(-lo / v, -hi / v))
    a.cut(hi=max(-lo / v, -hi / v))
    if (a.lo, a.hi) == before:
        return None
    return "again"


def decide_eq(eng, d):
    d = canon(d)
    if isinstance(d, float):
        return d == 0
    if not d.c:
        return d.k == 0
    lo, lo_o, hi, hi_o = bounds(d)
    if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
        return False
    if hi is not None and (hi < 0 or (hi == 0 and hi_o)):
        return False
    if all(atom_integral(a) and v.denominator == 1 for a, v in d.c.items()) and d.k.denominator != 1:
        return False
    if len(d.c) == 1:
        (a, v), = d.c.items()
        t = -d.k / v
        if isinstance(a, FSym):
            if t in a.excl or (a.integral and t.denominator != 1):
                return False
            if eng.choose(2, f"{a.name} == {float(t)}", ("true", "false")) == 0:
                a.cut(lo=t)
                a.cut(hi=t)
                return True
            a.excl.add(t)
            if t == a.lo:
                a.cut(lo=t, open_=True)
            if t == a.hi:
                a.cut(hi=t, open_=True)
            return False
        if isinstance(a, Near):
            if t.denominator != 1:
                return False
            return decide_ge(eng, add(a.y, Num({}, HALF - t))) and not decide_ge(eng, add(a.y, Num({}, -HALF - t)))
    if all(isinstance(a, tuple) and a[0] == "bit" for a in d.c):
        a = max(d.c, key=lambda a: abs(d.c[a]))
        a[1].choose_bit(a[2])
        return decide_eq(eng, d)
    if any(isinstance(a, Junk) for a in d.c):
        return eng.choose(2, f"{d!r} == 0", ("true", "false")) == 0
    r = by_leading(eng, d)
    if r is not None:
        return False if r in (True, False) else decide_eq(eng, d)
    raise Undecided(f"whether {d!r} is zero")


def relation(eng, op, a, b):
    x, y = num(canon(a)), num(canon(b))
    if x is None or y is None:
        fa, fb = (canon(v) if isinstance(canon(v), float) and not math.isfinite(canon(v)) else None for v in (a, b))
        if (fa is not None and math.isnan(fa)) or (fb is not None and math.isnan(fb)):
            return op == "NotEq"
        # an infinity and a finite number (or another infinity)
        p = fa if fa is not None else 0.0
        q = fb if fb is not None else 0.0
        return {"Eq": p == q, "NotEq": p != q, "Lt": p < q, "LtE": p <= q, "Gt": p > q, "GtE": p >= q}[op]
    d = sub(x, y)
    if op == "Eq":
        return decide_eq(eng, d)
    if op == "NotEq":
        return not decide_eq(eng, d)
    if op == "GtE":
        return decide_ge(eng, d)
    if op == "Gt":
        return decide_ge(eng, d, True)
    if op == "LtE":
        return not decide_ge(eng, d, True)
    if op == "Lt":
        return not decide_ge(eng, d)
    raise Undecided(op)


# ------------------------------------------------------------------ functions


def near_of(y):
    """floor(y + 1/2) without forking."""
    if not y.c:
        return Num({}, math.floor(y.k + HALF))
    ints = {a: v for a, v in y.c.items() if atom_integral(a) and v.denominator == 1}
    rest = Num({a: v for a, v in y.c.items() if a not in ints}, y.k - math.floor(y.k))
    whole = Num(ints, math.floor(y.k))
    # integral atoms with fractional coefficients: their whole part goes out as well
    more = {a: F(math.floor(v)) for a, v in rest.c.items() if atom_integral(a) and abs(v) >= 1}
    if more:
        rest = Num({a: v - more.get(a, 0) for a, v in rest.c.items()}, rest.k)
        whole = add(whole, Num(more))
    if not rest.c:
        return add(whole, Num({}, math.floor(rest.k + HALF)))
    lo, lo_o, hi, hi_o = bounds(rest)
    if lo is not None and hi is not None:
        n = math.floor(lo + HALF)
        m = math.floor(hi + HALF)
        if hi_o and hi + HALF == m:
            m -= 1
        if n == m:
            return add(whole, Num({}, n))
    return add(whole, Num({Near(rest): 1}))


def nearest(eng, x):
    """rint: ties do not matter to anything that is decided here."""
    x = canon(x)
    if isinstance(x, float):
        return x
    if integral(x):
        return x
    if not x.c:
        return Num({}, round(x.k))
    # whole parts go out; a rounding of a negated number is the negated rounding (up to ties)
    ints = {a: v for a, v in x.c.items() if atom_integral(a) and v.denominator == 1}
    rest = Num({a: v for a, v in x.c.items() if a not in ints}, x.k - math.floor(x.k))
    whole = Num(ints, math.floor(x.k))
    a = min(rest.c, key=lambda a: (isinstance(a, Near), repr(a)))
    if rest.c[a] < 0:
        return add(whole, scale(near_of(scale(rest, -1)), -1))
    return add(whole, near_of(rest))


def floor(eng, x):
    x = canon(x)
    if isinstance(x, float) or integral(x):
        return x
    return near_of(add(x, Num({}, -HALF)))


def ceil(eng, x):
    x = canon(x)
    if isinstance(x, float) or integral(x):
        return x
    return scale(floor(eng, scale(x, -1)), -1)


def trunc(eng, x):
    x = canon(x)
    if isinstance(x, float) or integral(x):
        return x
    return floor(eng, x) if decide_ge(eng, x) else ceil(eng, x)


def rounded(eng, x, n):
    x = canon(x)
    if isinstance(x, float) or integral(x):
        return x
    p = F(10) ** n
    return scale(nearest(eng, scale(x, p)), 1 / p)


def absolute(eng, x):
    x = canon(x)
    if isinstance(x, float):
        return abs(x)
    return x if decide_ge(eng, x) else scale(x, -1)


def arith(eng, op, a, b):
    a, b = canon(a), canon(b)
    x, y = num(a), num(b)
    if x is None or y is None:
        # an infinity or nan absorbs finite numbers
        p = a if x is None else (1.0 if op != "Mult" and op != "Div" else float(sign(eng, x)))
        q = b if y is None else (1.0 if op != "Mult" and op != "Div" else float(sign(eng, y)))
        if not (isinstance(p, float) and isinstance(q, float)):
            raise Undecided(f"{op} of {short(a)} and {short(b)}")
        try:
            return {"Add": p + q, "Sub": p - q}[op] if op in ("Add", "Sub") else {"Mult": lambda: p * q, "Div": lambda: p / q}[op]()
        except (KeyError, ZeroDivisionError):
            raise Undecided(f"{op} of {p} and {q}") from None
    if not x.c and not y.c:
        r = exact(op, a, b)
        if r is not None:
            return r
    if op == "Add":
        return add(x, y)
    if op == "Sub":
        return sub(x, y)
    if op == "Mult":
        if not y.c:
            return scale(x, y.k)
        if not x.c:
            return scale(y, x.k)
        return Num({("mul", *sorted((x, y), key=repr)): 1})
    if op == "Div":
        if not y.c:
            if y.k == 0:
                raise Undecided("division by zero")
            return as_real(scale(x, 1 / y.k))
        return Num({("div", x, y): 1}, 0, True)
    if op == "FloorDiv" and not y.c and y.k:
        return floor(eng, scale(x, 1 / y.k))
    if op == "Mod" and not y.c and y.k:
        return sub(x, scale(floor(eng, scale(x, 1 / y.k)), y.k))
    if op == "Pow" and not y.c and y.k == 1:
        return x
    if op in ("LShift", "RShift") and not y.c and y.k >= 0 and integral(x):
        n = F(2) ** int(y.k)
        return scale(x, n) if op == "LShift" else floor(eng, scale(x, 1 / n))
    raise Undecided(f"{op} of {x!r} and {y!r}")


def exact(op, a, b):
    """Arithmetic of two known numbers as numpy does it."""
    import operator as o

    f = {
        "Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod, "Pow": o.pow,
        "LShift": o.lshift, "RShift": o.rshift, "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor,
    }.get(op)
    if isinstance(a, Num):
        a = plain(a)
    if isinstance(b, Num):
        b = plain(b)
    try:
        return f(a, b)
    except ZeroDivisionError:
        if op == "Div":
            return math.nan if a == 0 or a != a else math.inf * (1 if a > 0 else -1)
        return None
    except (TypeError, OverflowError):
        return None


def sign(eng, x):
    if not x.c:
        return (x.k > 0) - (x.k < 0)
    return 1 if decide_ge(eng, x, True) else (0 if decide_eq(eng, x) else -1)


# ------------------------------------------------------------------ comparison of results


def leaves(x, out):
    for a in x.c:
        if isinstance(a, Near):
            leaves(a.y, out)
        elif isinstance(a, F64):
            for b in a.bits:
                if b not in (0, 1):
                    out[b[0]] = None
        elif isinstance(a, tuple) and a[0] == "bit":
            out[a[1]] = None
        elif isinstance(a, tuple):
            leaves(a[1], out)
            leaves(a[2], out)
        else:
            out[a] = None
    return out


def evaluate(x, asg):
    r = x.k
    for a, v in x.c.items():
        if isinstance(a, Near):
            t = F(math.floor(evaluate(a.y, asg) + HALF))
        elif isinstance(a, F64):
            n = sum((b if b in (0, 1) else (asg[b[0]] >> b[1]) & 1) << i for i, b in enumerate(a.bits))
            d = struct.unpack("<d", n.to_bytes(8, "little"))[0]
            if not math.isfinite(d):
                raise OverflowError
            t = F(d)
        elif isinstance(a, tuple) and a[0] == "bit":
            t = F((asg[a[1]] >> a[2]) & 1)
        elif isinstance(a, tuple):
            p, q = evaluate(a[1], asg), evaluate(a[2], asg)
            t = p * q if a[0] == "mul" else p / q
        else:
            t = asg[a]
        r += v * t
    return r


def same(eng, a, b, tie=F(0)):
    """True, False with an example, or None: whether two results are the same number.

    Returns (verdict, example)."""
    a, b = canon(a), canon(b)
    x, y = num(a), num(b)
    if x is None or y is None:
        if isinstance(a, float) and isinstance(b, float):
            return (a == b or (a != a and b != b)), ""
        if isinstance(a, (Num, float, int)) and isinstance(b, (Num, float, int)):
            return False, ""
        return None, ""
    d = canon(sub(x, y))
    if isinstance(d, float):
        return None, ""
    if not d.c:
        return (abs(d.k) <= tie), ""
    if any(isinstance(k, Junk) for k in d.c):
        return False, f"{a!r} against {b!r}"
    found = leaves(d, {})
    if any(isinstance(k, Junk) for k in found):
        return False, f"{a!r} against {b!r}"
    syms = sorted(found, key=lambda s: s.name)
    pools = [[F(v) for v in s.samples()] if isinstance(s, FSym) else s.values() for s in syms]
    if any(not p for p in pools):
        return None, ""
    n = max(len(p) for p in pools)
    for i in range(n):
        for sh in range(3):
            asg = {s: (v if isinstance(s, FSym) else int(v)) for j, (s, p) in enumerate(zip(syms, pools)) for v in (p[(i + sh * j) % len(p)],)}
            try:
                if abs(evaluate(d, asg)) > tie:
                    return False, ", ".join(f"{s.name} = {float(v) if isinstance(s, FSym) else hex(v)}" for s, v in asg.items())
            except (OverflowError, ZeroDivisionError):
                continue
    return None, ""


def key(v):
    """Hashable form of an element."""
    if isinstance(v, Num):
        return v
    return (type(v).__name__, repr(v)) if is_conc(v) else v


__all__ = [n for n in globals() if not n.startswith("_")]
_ = (Aff, Term, AbsVal)

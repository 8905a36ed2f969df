"""Bit-provenance domain: integers as vectors of bits of symbolic numbers, and byte strings made of them."""
from __future__ import annotations

from .engine import ExtV, Pruned, Undecided, Violation
from .lib import BArrV, codec_name
from .values import *  # noqa: F403
from .values import AbsVal, Aff, Builtin, Term, aff_add, norm_aff, sym, to_aff


class BitSym:
    """A symbolic non-negative number below 2**width."""

    def __init__(self, eng, name, width, lo=0, hi=None):
        self.eng, self.name, self.width = eng, name, width
        self.term = sym(name, "int")
        self.lo, self.hi = lo, (1 << width) - 1 if hi is None else hi
        self.known = {}
        self.excl = set()
        eng.path.data.setdefault("bitsyms", {})[self.term] = self
        self.facts()

    def facts(self):
        lo, hi = self.first(self.lo), self.last(self.hi)
        if lo is None or hi is None or lo > hi:
            raise Pruned
        self.lo, self.hi = lo, hi
        self.eng.assume(Aff({self.term: 1}, -self.lo))
        self.eng.assume(Aff({self.term: -1}, self.hi))

    def last(self, hi):
        """Largest number <= hi that agrees with the known bits, or None."""
        m = (1 << self.width) - 1
        saved = self.known
        self.known = {k: 1 - b for k, b in saved.items()}
        try:
            v = self.first(m - min(hi, m))
        finally:
            self.known = saved
        return None if v is None else m - v

    def values(self, n=9):
        """Some numbers the symbol may stand for."""
        out = []
        for i in range(n):
            v = self.first(self.lo + (self.hi - self.lo) * i // (n - 1))
            if v is not None and self.lo <= v <= self.hi and v not in self.excl:
                out.append(v)
        for k in range(self.width):
            if self.bit(k) is None:
                for base in (self.lo, self.hi):
                    v = base ^ (1 << k)
                    if self.lo <= v <= self.hi and self.first(v) == v:
                        out.append(v)
        return sorted(set(out))

    def value(self):
        return BitsV(self.eng, [(self, k) for k in range(self.width)])

    def bit(self, k):
        """0, 1 or None."""
        if k in self.known:
            return self.known[k]
        if self.lo >> k == self.hi >> k:
            return (self.lo >> k) & 1
        return None

    def first(self, lo):
        """Smallest number >= lo that agrees with the known bits, or None."""
        v = lo
        while True:
            bad = None
            for k in range(self.width - 1, -1, -1):
                b = self.known.get(k)
                if b is not None and (v >> k) & 1 != b:
                    bad = k
                    break
            if bad is None:
                return v if v >> self.width == 0 else None
            k = bad
            if self.known[k] == 1:
                v = ((v >> k) | 1) << k
            else:
                v = ((v >> k) + 1) << k
            if v >> self.width:
                return None

    def feasible(self):
        v = self.first(self.lo)
        return v is not None and v <= self.hi

    def set_bit(self, k, b):
        self.known[k] = b

    def can_bit(self, k, b):
        self.known[k] = b
        try:
            return self.feasible()
        finally:
            del self.known[k]

    guard = None

    def choose_bit(self, k):
        if self.guard and self.bit(k) is None:
            raise Violation(self.guard)
        b = self.bit(k)
        if b is not None:
            return b
        opts = [b for b in (0, 1) if self.can_bit(k, b)]
        b = opts[0] if len(opts) == 1 else opts[self.eng.choose(2, f"bit {k} of {self.name}", opts)]
        self.known[k] = b
        self.facts()
        return b

    def decide_eq(self, c):
        if c in self.excl or not self.lo <= c <= self.hi or self.first(c) != c:
            return False
        if self.lo == self.hi:
            return True
        if self.guard:
            raise Violation(self.guard)
        if self.eng.choose(2, f"{self.name} == {c:#x}", ("true", "false")) == 0:
            self.lo = self.hi = c
            self.facts()
            return True
        self.excl.add(c)
        if c == self.lo:
            self.lo += 1
            self.facts()
        elif c == self.hi:
            self.hi -= 1
            self.facts()
        return False

    def decide_ge(self, c):
        """self >= c"""
        if self.lo >= c:
            return True
        if self.hi < c:
            return False
        if self.guard:
            raise Violation(self.guard)
        save = self.lo, self.hi
        self.lo = c
        t = self.feasible()
        self.lo, self.hi = save
        self.hi = c - 1
        f = self.feasible()
        self.lo, self.hi = save
        if t and not self.eng.possible(Aff({self.term: 1}, -c)):
            t = False
        if f and not self.eng.possible(Aff({self.term: -1}, c - 1)):
            f = False
        if not t and not f:
            raise Pruned
        r = t if t != f else self.eng.choose(2, f"{self.name} >= {c:#x}", ("true", "false")) == 0
        if r:
            self.lo = c
        else:
            self.hi = c - 1
        self.facts()
        return r


class BitsV(AbsVal):
    """A non-negative integer given bit by bit (least significant first)."""

    __slots__ = ("bits", "eng")
    kind = "int"

    def __init__(self, eng, bits):
        self.eng = eng
        bits = list(bits)
        while bits and bits[-1] == 0:
            bits.pop()
        self.bits = bits

    def res(self, i):
        b = self.bits[i] if i < len(self.bits) else 0
        if b in (0, 1):
            return b
        r = b[0].bit(b[1])
        return b if r is None else r

    def resolved(self):
        r = [self.res(i) for i in range(len(self.bits))]
        while r and r[-1] == 0:
            r.pop()
        return r

    def const(self):
        r = self.resolved()
        if all(b in (0, 1) for b in r):
            return sum(b << i for i, b in enumerate(r))
        return None

    def whole(self):
        """The symbol this is equal to, if any."""
        r = self.resolved()
        s = next((b[0] for b in r if b not in (0, 1)), None)
        if s is None:
            return None
        t = s.value().resolved()
        return s if t == r else None

    def view(self):
        """(symbol, k) if the value is the symbol shifted right by k."""
        if not self.bits or self.bits[0] in (0, 1):
            return None
        s, k = self.bits[0]
        if len(self.bits) != s.width - k:
            w = self.whole()
            return (w, 0) if w is not None else None
        if all(b == (s, k + i) for i, b in enumerate(self.bits)):
            return s, k
        return None

    def v_aff(self):
        c = self.const()
        if c is not None:
            return Aff({}, c)
        w = self.whole()
        if w is not None:
            return Aff({w.term: 1}, 0)
        # a symbol shifted left
        k = next((i for i, b in enumerate(self.bits) if b != 0), 0)
        if k:
            w = BitsV(self.eng, self.bits[k:]).whole()
            if w is not None:
                return Aff({w.term: 1 << k}, 0)
        return None

    def same(self, o):
        return self.resolved() == o.resolved()

    def fix(self, i):
        b = self.res(i)
        if b in (0, 1):
            return b
        return b[0].choose_bit(b[1])

    def decide_ge(self, c):
        if c <= 0:
            return True
        v = self.view()
        if v is not None:
            return v[0].decide_ge(c << v[1])
        while True:
            r = self.resolved()
            lo = sum(1 << i for i, b in enumerate(r) if b == 1)
            hi = sum(1 << i for i, b in enumerate(r) if b != 0)
            if lo >= c:
                return True
            if hi < c:
                return False
            i = max(i for i, b in enumerate(r) if b not in (0, 1))
            self.fix(i)

    def decide_eq(self, c):
        if c < 0 or c >> max(len(self.bits), 1):
            v = self.const()
            if v is not None:
                return v == c
            if c < 0:
                return False
        v = self.view()
        if v is not None and c == 0:
            return not v[0].decide_ge(1 << v[1])
        if v is not None and v[1] == 0:
            return v[0].decide_eq(c)
        for i in range(max(len(self.bits), c.bit_length())):
            if self.fix(i) != (c >> i) & 1:
                return False
        return True

    def v_truth(self, eng):
        return not self.decide_eq(0)

    def v_int(self, eng):
        return self

    def v_binop(self, eng, op, o, rev):
        a, b = (o, self) if rev else (self, o)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        x = lift(eng, a)
        y = lift(eng, b)
        if op in ("LShift", "RShift") and isinstance(y, BitsV):
            n = y.const()
            if n is None or x is None:
                raise Undecided("symbolic shift")
            if op == "LShift":
                return BitsV(eng, [0] * n + x.bits)
            return BitsV(eng, x.bits[n:])
        if x is not None and y is not None:
            n = max(len(x.bits), len(y.bits))
            if op in ("BitAnd", "BitOr", "BitXor"):
                out = []
                for i in range(n):
                    p, q = x.res(i), y.res(i)
                    if op == "BitAnd":
                        if p == 0 or q == 0:
                            r = 0
                        elif p == 1:
                            r = q
                        elif q == 1 or p == q:
                            r = p
                        else:
                            r = x.fix(i) & y.fix(i)
                    elif op == "BitOr":
                        if p == 1 or q == 1:
                            r = 1
                        elif p == 0:
                            r = q
                        elif q == 0 or p == q:
                            r = p
                        else:
                            r = x.fix(i) | y.fix(i)
                    elif p == 0:
                        r = q
                    elif q == 0:
                        r = p
                    elif p == q:
                        r = 0
                    else:
                        r = x.fix(i) ^ y.fix(i)
                    out.append(r)
                # keep the provenance of bits that were taken as they are
                return BitsV(eng, out)
            if op == "Mult":
                for p, q in ((x, y), (y, x)):
                    c = q.const()
                    if c is not None:
                        if c == 0:
                            return 0
                        if c & (c - 1) == 0:
                            return BitsV(eng, [0] * (c.bit_length() - 1) + p.bits)
            if op in ("FloorDiv", "Mod"):
                c = y.const()
                if c and c & (c - 1) == 0:
                    k = c.bit_length() - 1
                    return BitsV(eng, x.bits[k:] if op == "FloorDiv" else [x.res(i) for i in range(min(k, len(x.bits)))])
            if op == "Add" and all(x.res(i) == 0 or y.res(i) == 0 for i in range(n)):
                return BitsV(eng, [y.res(i) if x.res(i) == 0 else x.res(i) for i in range(n)])
            if op == "Sub" and y.const() is not None:
                c = y.const()
                if all(x.fix(i) == 1 for i in range(n) if (c >> i) & 1 and x.view() is None):
                    if all(x.res(i) == 1 for i in range(n) if (c >> i) & 1):
                        return BitsV(eng, [0 if (c >> i) & 1 else x.res(i) for i in range(n)])
        p, q = to_aff(a), to_aff(b)
        if p is not None and q is not None:
            if op == "Add":
                return norm_aff(aff_add(p, q))
            if op == "Sub":
                return norm_aff(aff_add(p, q, -1))
        if op in ("Add", "Sub", "Mult", "Div", "FloorDiv", "Mod"):
            from . import num as N

            x, y = lift(eng, a), lift(eng, b)
            x, y = a if x is None else x, b if y is None else y
            x, y = (N.from_bits(v.resolved()) if isinstance(v, BitsV) else v for v in (x, y))
            if all(isinstance(v, N.Num) or N.num(v) is not None for v in (x, y)):
                return N.arith(eng, op, x, y)
        for v in (a, b):
            watch(eng, v)
        raise Undecided(f"{op} of bit vectors")

    def v_unop(self, eng, op):
        if op == "Not":
            return not self.v_truth(eng)
        if op == "UAdd":
            return self
        raise Undecided(op)

    def v_compare(self, eng, op, o, rev):
        if rev:
            op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, BitsV) and o.const() is not None:
            o = o.const()
        if isinstance(o, int):
            if op == "Eq":
                return self.decide_eq(o)
            if op == "NotEq":
                return not self.decide_eq(o)
            if op == "GtE":
                return self.decide_ge(o)
            if op == "Lt":
                return not self.decide_ge(o)
            if op == "Gt":
                return self.decide_ge(o + 1)
            if op == "LtE":
                return not self.decide_ge(o + 1)
        if isinstance(o, BitsV) and op in ("Eq", "NotEq") and self.same(o):
            return op == "Eq"
        if isinstance(o, (BitsV, Aff, Term)):
            p, q = to_aff(self), to_aff(o)
            if p is not None and q is not None:
                return eng.compare({"Gt": "Gt"}.get(op, op), norm_aff(p), norm_aff(q))
            for v in (self, o):
                watch(eng, v)
            raise Undecided("comparison of bit vectors")
        if op == "Eq":
            return False
        if op == "NotEq":
            return True
        return NotImplemented

    def v_pack(self, eng, order, c, sz):
        n = 8 * sz
        if self.decide_ge(1 << n):
            eng.throw(ExtV("struct.error"), f"{self!r} does not fit {sz} bytes")
        bs = [BitsV(eng, [self.res(8 * i + j) for j in range(8)]) for i in range(sz)]
        return ByteStr(eng, bs if order in "<@=" else bs[::-1])

    def v_isinstance(self, eng, cls):
        return isinstance(cls, type) and issubclass(int, cls)

    def v_getattr(self, eng, name):
        if name == "to_bytes":

            def to_bytes(e, a, k):
                n = a[0] if a else k.get("length", 1)
                if self.decide_ge(1 << (8 * n)):
                    e.throw(OverflowError, "int too big to convert")
                order = a[1] if len(a) > 1 else k.get("byteorder", "big")
                return self.v_pack(e, "<" if order == "little" else ">", "B", n)

            return Builtin(name, to_bytes)
        if name in ("item", "real"):
            return Builtin(name, lambda e, a, k: self) if name == "item" else self
        return NotImplemented

    def __repr__(self):
        w = self.whole()
        if w is not None:
            return w.name
        c = self.const()
        if c is not None:
            return hex(c)
        out = []
        for i in range(len(self.bits) - 1, -1, -1):
            b = self.res(i)
            out.append(str(b) if b in (0, 1) else f"{b[0].name}{b[1]}")
        return "0b[" + " ".join(out) + "]"


def at(v, assign):
    """Number denoted by a bit vector under an assignment of symbols."""
    if isinstance(v, int):
        return v
    return sum((b if b in (0, 1) else (assign[b[0]] >> b[1]) & 1) << i for i, b in enumerate(v.bits))


def watch(eng, v):
    """Tell the check about a number that is no plain symbol where one is needed."""
    f = eng.path.data.get("watch")
    if f is not None and isinstance(v, BitsV):
        f(v)


def symbols(v):
    return {b[0] for b in v.bits if b not in (0, 1)} if isinstance(v, BitsV) else set()


def differ(eng, a, b):
    """An assignment of the symbols under which two integers differ (both bit vectors or constants), or None."""
    a = lift(eng, a)
    b = lift(eng, b)
    if a is None or b is None:
        return None
    ss = sorted(symbols(a) | symbols(b), key=lambda s: s.name)
    pools = [s.values() for s in ss]
    n = max((len(p) for p in pools), default=1)
    for i in range(n):
        for sh in range(3):
            asg = {s: p[(i + sh * j) % len(p)] for j, (s, p) in enumerate(zip(ss, pools))}
            if at(a, asg) != at(b, asg):
                return {s.name: v for s, v in asg.items()}
    return None


def lift(eng, v):
    if isinstance(v, BitsV):
        return v
    if isinstance(v, Aff):
        v = norm_aff(v)
    if isinstance(v, Term):
        s = eng.path.data.get("bitsyms", {}).get(v)
        return s.value() if s is not None else None
    if isinstance(v, int) and v >= 0:
        return BitsV(eng, [(v >> i) & 1 for i in range(v.bit_length())])
    return None


class Seg:
    """A run ``base[lo:hi]`` of a symbolic payload."""

    __slots__ = ("base", "hi", "lo")

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    def __repr__(self):
        return f"{self.base}[{self.lo!r}:{self.hi!r}]"


def alen(a, b):
    return norm_aff(aff_add(to_aff(b), to_aff(a), -1))


def plus(a, b):
    return norm_aff(aff_add(to_aff(a), to_aff(b)))


class ByteStr(AbsVal):
    """A byte string made of single bytes and payload runs."""

    __slots__ = ("eng", "parts")
    kind = "bytes"

    def __init__(self, eng, parts):
        self.eng = eng
        out = []
        for p in parts:
            if isinstance(p, Seg) and out and isinstance(out[-1], Seg):
                q = out[-1]
                if q.base == p.base and eng.must_eq(q.hi, p.lo):
                    out[-1] = Seg(q.base, q.lo, p.hi)
                    continue
            out.append(p)
        self.parts = out

    def length(self):
        n = 0
        for p in self.parts:
            n = plus(n, alen(p.lo, p.hi) if isinstance(p, Seg) else 1)
        return n

    def v_len(self, eng):
        n = self.length()
        b = lift(eng, n) if isinstance(n, Term) else None
        return n if b is None else b

    def v_truth(self, eng):
        return not eng.truth(eng.compare("Eq", self.length(), 0))

    def cut(self, lo, hi):
        """Bytes lo..hi (affine bounds, hi may be None)."""
        eng = self.eng
        pos = 0
        out = []
        for p in self.parts:
            n = alen(p.lo, p.hi) if isinstance(p, Seg) else 1
            end = plus(pos, n)
            # intersect [pos, end) with [lo, hi)
            if eng.truth(eng.compare("GtE", lo, end)):
                pos = end
                continue
            a = pos if eng.truth(eng.compare("LtE", lo, pos)) else lo
            if hi is not None and eng.truth(eng.compare("LtE", hi, pos)):
                break
            b = end if hi is None or eng.truth(eng.compare("GtE", hi, end)) else hi
            if isinstance(p, Seg):
                q = Seg(p.base, plus(p.lo, alen(pos, a)), plus(p.lo, alen(pos, b)))
                if not eng.truth(eng.compare("GtE", q.lo, q.hi)):
                    out.append(q)
            else:
                out.append(p)
            pos = end
        return ByteStr(eng, out)

    def norm_index(self, i, default):
        eng = self.eng
        if i is None:
            return default
        if to_aff(i) is None:
            watch(eng, i)
            raise Undecided("byte index")
        i = norm_aff(to_aff(i))
        if eng.truth(eng.compare("Lt", i, 0)):
            i = plus(i, self.length())
            if eng.truth(eng.compare("Lt", i, 0)):
                return 0
        return i

    def v_getitem(self, eng, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Undecided("byte string step")
            lo = self.norm_index(i.start, 0)
            hi = self.norm_index(i.stop, None)
            if hi is not None and eng.truth(eng.compare("LtE", hi, lo)):
                return ByteStr(eng, [])
            return self.cut(lo, hi)
        if to_aff(i) is None:
            raise Undecided(f"byte index {i!r}")
        i = norm_aff(to_aff(i))
        if eng.truth(eng.compare("Lt", i, 0)):
            i = plus(i, self.length())
        pos = 0
        if not eng.truth(eng.compare("Lt", i, 0)):
            for p in self.parts:
                n = alen(p.lo, p.hi) if isinstance(p, Seg) else 1
                end = plus(pos, n)
                if eng.truth(eng.compare("Lt", i, end)):
                    if isinstance(p, Seg):
                        off = plus(p.lo, alen(pos, i))
                        return payload_byte(eng, p.base, off)
                    return p if p.const() is None else p.const()
                pos = end
        eng.throw(IndexError, "index out of range")

    def v_binop(self, eng, op, o, rev):
        if op != "Add":
            return NotImplemented
        o = to_bytestr(eng, o)
        if o is None:
            return NotImplemented
        return ByteStr(eng, [*o.parts, *self.parts] if rev else [*self.parts, *o.parts])

    def v_bytes(self, eng, items, sep):
        if sep:
            raise Undecided("separated join")
        parts = []
        for x in items:
            b = to_bytestr(eng, x)
            if b is None:
                raise Undecided(f"join of {x!r}")
            parts += b.parts
        return ByteStr(eng, parts)

    def v_from_bytes(self, eng, order, signed):
        if signed:
            u = self.v_from_bytes(eng, order, False)
            if not eng.truth(eng.compare("GtE", u, 1 << (8 * len(self.parts) - 1))):
                return u
            return norm_aff(aff_add(to_aff(u), Aff({}, -(1 << (8 * len(self.parts))))))
        ps = self.parts if order == "little" else self.parts[::-1]
        if any(isinstance(p, Seg) for p in ps):
            raise Undecided("integer of a payload")
        bits = []
        for p in ps:
            bits += [p.res(j) for j in range(8)]
        return BitsV(eng, bits)

    unpack_model = True

    def v_call(self, eng, args, kw):
        if args and args[0] == "__unpack__":
            from .lib import fmt_fields
            import struct

            order, fields = fmt_fields(args[1])
            off0 = args[2]
            n = struct.calcsize(args[1])
            if args[3]:
                if not eng.truth(eng.compare("GtE", self.length(), plus(off0, n))):
                    eng.throw(ExtV("struct.error"), "size")
            elif not eng.truth(eng.compare("Eq", self.length(), n)):
                eng.throw(ExtV("struct.error"), "size")
            out = []
            for c, off, sz in fields:
                x = self.cut(plus(off0, off), plus(off0, off + sz))
                if getattr(eng, "numbers", False) and (c == "d" or c.islower()) and c in "dbhilq":
                    from . import arrays as A

                    d = {"d": "f8"}.get(c) or f"i{sz}"
                    if order not in "<@=":
                        x = ByteStr(eng, x.parts[::-1])
                    out.append(A.out(A.from_bytes(eng, x, d)[0], d))
                    continue
                if c in "fd":
                    out.append(Term("float", (repr(x), sz, order in "<@="), "float"))
                    continue
                out.append(x if c == "s" else x.v_from_bytes(eng, "little" if order in "<@=" else "big", c.islower()))
            return tuple(out)
        return NotImplemented

    def v_getattr(self, eng, name):
        if name == "decode":
            return Builtin(name, self._decode)
        if name == "__len__":
            return Builtin(name, lambda e, a, k: self.v_len(e))
        if name == "tobytes":
            return Builtin(name, lambda e, a, k: self)
        if name == "startswith":
            return Builtin(name, lambda e, a, k: e.compare("Eq", self.v_getitem(e, slice(0, len(a[0]))), a[0]))
        if not hasattr(bytes, name):
            eng.throw(AttributeError, name)
        raise Undecided(f"bytes.{name}")

    def const(self):
        """The bytes, if all of them are known."""
        if all(not isinstance(p, Seg) and p.const() is not None for p in self.parts):
            return bytes(p.const() for p in self.parts)
        return None

    def _decode(self, eng, a, k):
        enc = codec_name(a[0] if a else k.get("encoding", "utf-8"))
        c = self.const()
        if c is not None:
            try:
                return c.decode(enc, *a[1:])
            except UnicodeError as e:
                eng.throw(type(e), *e.args)
        if eng.truth(eng.compare("Eq", self.length(), 0)):
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], Seg):
            p = self.parts[0]
            e = eng.path.data.get("encoded", {}).get(p.base)
            if e is not None and e[1] == enc and eng.must_eq(p.lo, 0) and eng.must_eq(p.hi, norm_aff(aff_scale(to_aff(e[2]), 2))):
                return e[0]
        key = tuple((p.base, p.lo, p.hi) if isinstance(p, Seg) else repr(p) for p in self.parts)
        err = a[1] if len(a) > 1 else k.get("errors", "strict")
        return Term("decoded", (key, enc) if err == "strict" else (key, enc, err), "str")

    def v_iter(self, eng, cb):
        for p in self.parts:
            if isinstance(p, Seg):
                raise Undecided("iteration over a payload")
            cb(p)
        return None

    def v_compare(self, eng, op, o, rev):
        if op in ("Eq", "NotEq"):
            b = to_bytestr(eng, o)
            if b is None:
                return op == "NotEq"
            if isinstance(o, bytes) and not o:
                r = not self.v_truth(eng)
            elif same_bytes(eng, self, b):
                r = True
            elif not eng.truth(eng.compare("Eq", self.length(), b.length())):
                r = False
            elif any(isinstance(p, Seg) for p in [*self.parts, *b.parts]):
                raise Undecided("comparison of byte strings")
            else:
                r = eng.truth(eng.compare("Eq", self.v_from_bytes(eng, "little", False), b.v_from_bytes(eng, "little", False)))
            return r == (op == "Eq")
        return NotImplemented

    def v_isinstance(self, eng, cls):
        return isinstance(cls, type) and issubclass(bytes, cls)

    def __repr__(self):
        return "b" + repr(self.parts)


def payload_byte(eng, base, off):
    """A byte of a payload: unknown, and the same whenever read again."""
    d = eng.path.data.setdefault("payload_bytes", {})
    k = (base, norm_aff(to_aff(off)))
    if k not in d:
        b = BitSym(eng, f"{base}@{off!r}", 8)
        b.guard = f"bytes of the {base} are read as a record header"
        d[k] = b.value()
    return d[k]


def to_bytestr(eng, v):
    if isinstance(v, BArrV):
        v = v.val
    if isinstance(v, ByteStr):
        return v
    if isinstance(v, bytes):
        return ByteStr(eng, [lift(eng, x) for x in v])
    if isinstance(v, Term) and v.op == "cat" and v.kind == "bytes":
        xs = [to_bytestr(eng, x) for x in v.args]
        return None if any(x is None for x in xs) else ByteStr(eng, [p for x in xs for p in x.parts])
    if isinstance(v, Term) and v.op == "encode" and v.args[1] in ("utf-16-le", "utf-16-be", "utf-16"):
        s, enc = v.args[0], v.args[1]
        if len(v.args) > 2:
            enc += f" (errors: {v.args[2]})"
        if enc == "utf-16":
            return ByteStr(eng, [lift(eng, 0xFF), lift(eng, 0xFE), *to_bytestr(eng, Term("encode", (s, "utf-16-le"), "bytes")).parts])
        if not eng.truth(s):
            return ByteStr(eng, [])
        base = f"{enc} of {s!r}"
        n = units(eng, s)
        eng.path.data.setdefault("encoded", {})[base] = (s, enc, n)
        return ByteStr(eng, [Seg(base, 0, norm_aff(aff_scale(to_aff(n), 2)))])
    return None


def units(eng, s):
    """Number of UTF-16 code units of a text that is not empty."""
    d = eng.path.data.setdefault("units", {})
    if s not in d:
        b = BitSym(eng, f"code units of {s!r}", 32, 1, 0x3FFFFFFF)
        d[s] = b.value()
    return d[s]


def same_bytes(eng, a, b):
    if len(a.parts) != len(b.parts):
        return False
    for p, q in zip(a.parts, b.parts):
        if isinstance(p, Seg) != isinstance(q, Seg):
            return False
        if isinstance(p, Seg):
            if p.base != q.base or not eng.must_eq(p.lo, q.lo) or not eng.must_eq(p.hi, q.hi):
                return False
        elif not p.same(q):
            return False
    return True


class OutV(AbsVal):
    """A binary stream being written."""

    def __init__(self, eng):
        self.eng, self.buf = eng, ByteStr(eng, [])
        self.start = 0

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        if name == "write":
            return Builtin("write", self._write)
        if name == "writelines":
            return Builtin("writelines", lambda e, a, k: e.iterate(a[0], lambda x: self._write(e, [x], {})))
        if name == "getvalue":
            return Builtin("getvalue", lambda e, a, k: self.buf)
        if name == "tell":
            return Builtin("tell", lambda e, a, k: plus(self.start, self.buf.length()))
        if name == "__enter__":
            return Builtin(name, lambda e, a, k: self)
        if name in ("__exit__", "close", "flush"):
            return Builtin(name, lambda e, a, k: None)
        if name in ("getbuffer",):
            return Builtin(name, lambda e, a, k: self.buf)
        raise Undecided(f"stream method {name}")

    def _write(self, eng, a, k):
        b = to_bytestr(eng, a[0])
        if b is None:
            raise Undecided(f"write of {a[0]!r}")
        self.buf = ByteStr(eng, [*self.buf.parts, *b.parts])
        return b.length()


class InV(AbsVal):
    """A binary stream being read. ``limits`` are the positions at which a bulk read may end early."""

    def __init__(self, eng, data, bulk=None):
        self.eng, self.data, self.pos = eng, data, 0
        self.bulk = bulk

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        f = getattr(self, "m_" + name, None)
        if f is not None:
            return Builtin(name, f)
        if name == "__enter__":
            return Builtin(name, lambda e, a, k: self)
        if name in ("__exit__", "close"):
            return Builtin(name, lambda e, a, k: None)
        raise Undecided(f"stream method {name}")

    def m_tell(self, eng, a, k):
        return self.pos

    def m_read(self, eng, a, k):
        n = a[0] if a else k.get("size", -1)
        if n is None:
            n = -1
        if isinstance(n, int) and n < 0:
            r = self.data.cut(self.pos, None)
            self.pos = self.data.length()
            return r
        if to_aff(n) is None:
            raise Undecided(f"read of {n!r} bytes")
        n = norm_aff(to_aff(n))
        if self.bulk is not None and isinstance(n, int) and n > 8:
            hi = self.bulk(self)
            r = self.data.cut(self.pos, hi)
            if hi is None:
                self.pos = self.data.length()
            else:
                self.pos = hi
            return r
        r = self.data.cut(self.pos, plus(self.pos, n))
        self.pos = plus(self.pos, r.length())
        return r

    def m_seek(self, eng, a, k):
        off = a[0]
        whence = a[1] if len(a) > 1 else k.get("whence", 0)
        if to_aff(off) is None:
            raise Undecided("seek")
        off = norm_aff(to_aff(off))
        end = self.data.length()
        p = plus({0: 0, 1: self.pos, 2: end}[whence], off)
        # compressed parts cannot be moved past their end
        self.pos = end if eng.truth(eng.compare("Gt", p, end)) else p
        return self.pos

    def m_seekable(self, eng, a, k):
        return True

    def m_readinto(self, eng, a, k):
        raise Undecided("readinto")


class MemV(InV):
    """io.BytesIO"""

    kind = "stream"

    def __init__(self, eng, data):
        super().__init__(eng, data)
        self.closed = False

    def v_getattr(self, eng, name):
        if name == "closed":
            return self.closed
        if name in ("__exit__", "close"):
            return Builtin(name, self._close)
        if name == "getvalue":
            return Builtin(name, lambda e, a, k: self.plain(self.data))
        if name == "getbuffer":
            return Builtin(name, lambda e, a, k: self.plain(self.data))
        if name == "flush":
            return Builtin(name, lambda e, a, k: None)
        return super().v_getattr(eng, name)

    @staticmethod
    def plain(b):
        c = b.const()
        return b if c is None else c

    def check(self, eng):
        if self.closed:
            eng.throw(ValueError, "I/O operation on closed file.")

    def _close(self, eng, a, k):
        self.closed = True

    def m_read(self, eng, a, k):
        self.check(eng)
        return self.plain(super().m_read(eng, a, k))

    def m_tell(self, eng, a, k):
        self.check(eng)
        return self.pos

    def m_seek(self, eng, a, k):
        self.check(eng)
        return super().m_seek(eng, a, k)

    def m_write(self, eng, a, k):
        self.check(eng)
        b = to_bytestr(eng, a[0])
        if b is None:
            raise Undecided(f"write of {a[0]!r}")
        n = b.length()
        end = self.data.length()
        if eng.must_eq(self.pos, end):
            self.data = ByteStr(eng, [*self.data.parts, *b.parts])
        else:
            self.data = ByteStr(eng, [*self.data.cut(0, self.pos).parts, *b.parts, *self.data.cut(plus(self.pos, n), None).parts])
        self.pos = plus(self.pos, n)
        return n

    def m_truncate(self, eng, a, k):
        n = a[0] if a and a[0] is not None else self.pos
        self.data = self.data.cut(0, n)
        return n

"""Models of builtins and of the libraries the analysed package uses."""
from __future__ import annotations

import builtins
import codecs
import re as _re
import struct as _struct

from .engine import EXT_EXC_BASE, Lazy, PyExc, StopConsume, Undecided, exc_is
from .values import *  # noqa: F403

CONST_EXT = {
    "os.SEEK_SET": 0,
    "os.SEEK_CUR": 1,
    "os.SEEK_END": 2,
    "io.SEEK_SET": 0,
    "io.SEEK_CUR": 1,
    "io.SEEK_END": 2,
    "typing.TYPE_CHECKING": False,
    "sys.maxsize": 2**63 - 1,
    "re.IGNORECASE": int(_re.IGNORECASE),
    "re.I": int(_re.I),
    "re.MULTILINE": int(_re.M),
    "re.M": int(_re.M),
    "re.DOTALL": int(_re.S),
    "re.S": int(_re.S),
    "re.VERBOSE": int(_re.X),
    "re.X": int(_re.X),
}

FOLD_TYPES = (int, float, str, bytes, bool, complex, tuple, frozenset, range, slice, type(None))


class StructV(AbsVal):
    __slots__ = ("fmt", "size")
    kind = "struct"

    def __init__(self, fmt):
        self.fmt = fmt if isinstance(fmt, str) else fmt.decode()
        self.size = _struct.calcsize(self.fmt)

    def v_getattr(self, eng, name):
        if name == "size":
            return self.size
        if name == "format":
            return self.fmt
        return MethV(self, name)

    def __repr__(self):
        return f"Struct({self.fmt!r})"


class ReV(AbsVal):
    """A compiled regular expression with a constant pattern."""

    __slots__ = ("flags", "pattern", "rx")
    kind = "regex"

    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags
        self.rx = _re.compile(pattern, flags)

    def v_getattr(self, eng, name):
        if name in ("pattern", "flags"):
            return getattr(self, name)
        return MethV(self, name)

    def v_compare(self, eng, op, o, rev):
        return NotImplemented

    def __repr__(self):
        return f"re({self.pattern!r})"


class Partial(AbsVal):
    __slots__ = ("args", "func", "kw")
    kind = "function"

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw

    def v_call(self, eng, args, kw):
        return eng.call(self.func, [*self.args, *args], {**self.kw, **kw})


class LibObj(AbsVal):
    """An object of a library with attributes given as a mapping of handlers."""

    __slots__ = ("attrs", "name", "undo")

    def __init__(self, name, **attrs):
        self.name, self.attrs = name, attrs

    def v_getattr(self, eng, name):
        if name in self.attrs:
            v = self.attrs[name]
            return Builtin(name, v) if callable(v) and not isinstance(v, AbsVal) else v
        return NotImplemented

    def v_truth(self, eng):
        return True

    def __repr__(self):
        return f"<{self.name}>"


def codec_name(s):
    try:
        return codecs.lookup(s).name
    except (LookupError, TypeError):
        return s


class Lib:
    def __init__(self):
        self.calls = {}  # dotted name -> fn(eng, args, kw)
        self.methods = {}  # method name -> fn(eng, obj, args, kw)
        self.ext_consts = dict(CONST_EXT)
        self.eq_hooks = []
        self.iter_hooks = []
        self.getitem_hooks = []
        self.builtin_over = {}
        base_calls(self.calls)

    # names ----------------------------------------------------------------

    def external(self, name):
        if name in self.ext_consts:
            return self.ext_consts[name]
        last = name.rpartition(".")[2]
        if name.startswith("builtins."):
            return self.builtin(last)
        return ExtV(name)

    def builtin(self, name):
        if name in self.builtin_over:
            return self.builtin_over[name]
        if name in BUILTINS:
            return BUILTINS[name]
        v = getattr(builtins, name, MISSING)
        if isinstance(v, type):
            return v
        if name in ("NotImplemented", "Ellipsis", "__debug__"):
            return v
        return MISSING

    # attributes -----------------------------------------------------------

    def attr(self, eng, o, name):
        if isinstance(o, Term):
            return self.term_attr(eng, o, name)
        if isinstance(o, slice):
            if name in ("start", "stop", "step"):
                return getattr(o, name)
            return MethV(o, name)
        if isinstance(o, RangeV) and name in ("start", "stop", "step"):
            return getattr(o, name)
        if isinstance(o, type):
            if name in ("__name__", "__qualname__"):
                return o.__name__
            if not hasattr(o, name):
                eng.throw(AttributeError, name)
            return MethV(o, name)
        if isinstance(o, FOLD_TYPES):
            if name in ("real", "imag", "numerator", "denominator") and isinstance(o, (int, float)):
                return getattr(o, name)
            if not hasattr(o, name):
                eng.throw(AttributeError, f"{type(o).__name__}.{name}")
            return MethV(o, name)
        if isinstance(o, (ListV, DictV, SetV)):
            py = {"list": list, "dict": dict, "set": set}[o.kind]
            if not hasattr(py, name):
                eng.throw(AttributeError, f"{o.kind}.{name}")
            return MethV(o, name)
        if isinstance(o, (GenV, IterV)):
            if name not in ("__next__", "close", "throw", "send", "__iter__"):
                eng.throw(AttributeError, name)
            return MethV(o, name)
        if isinstance(o, Aff):
            return MethV(o, name)
        if isinstance(o, BoundV):
            return eng.getattr(o.func, name)
        raise Undecided(f"attribute {name} of {short(o)}")

    def term_attr(self, eng, t, name):
        py = {"str": str, "bytes": bytes, "int": int, "list": list, "dict": dict, "set": set, "bool": bool, "float": float}.get(t.kind)
        if py is not None and not hasattr(py, name):
            eng.throw(AttributeError, f"{t.kind}.{name}")
        if t.maybe_none and eng.lit(Term("isnone", (t,), "bool")):
            eng.throw(AttributeError, name)
        if py is not None:
            return MethV(t, name)
        return Term("attr", (t, name))

    # calls ----------------------------------------------------------------

    def call(self, eng, name, args, kw):
        f = self.calls.get(name)
        if f is not None:
            return f(eng, args, kw)
        if name in EXT_EXC_BASE or name.endswith(("Error", "Exception", "Invalid")):
            return ExcV(ExtV(name), args)
        return self.default_call(eng, name, args, kw)

    def default_call(self, eng, name, args, kw):
        eng.opaque(name)
        return Term("call:" + name, (*args, *(x for k in sorted(kw) for x in (k, kw[k]))))

    def call_term(self, eng, f, args, kw):
        if f.op == "attr":
            m = self.methods.get(f.args[1])
            if m is not None:
                r = m(eng, f.args[0], args, kw)
                if r is not NotImplemented:
                    return r
            return self.default_method(eng, f.args[0], f.args[1], args, kw)
        if eng.on_unknown_call is not None:
            r = eng.on_unknown_call(eng, f, args, kw)
            if r is not NotImplemented:
                return r
        if f.op == "sym" and f.kind not in ("obj", "func", "function"):
            eng.throw(TypeError, "not callable")
        eng.opaque(short(f))
        return Term("app", (f, *args, *(x for k in sorted(kw) for x in (k, kw[k]))))

    def default_method(self, eng, o, name, args, kw):
        eng.opaque("." + name)
        return Term("m:" + name, (o, *args, *(x for k in sorted(kw) for x in (k, kw[k]))))

    def unpack(self, eng, v, n):
        return [Term("item", (v, i)) for i in range(n)]

    def isinstance_ext(self, eng, v, name):
        if name in ("collections.abc.Callable", "typing.Callable"):
            return call_callable(eng, [v], {})
        if name in ("collections.abc.Sequence", "typing.Sequence"):
            return eng.isinstance(v, (list, tuple, str, bytes, range))
        if name in ("collections.abc.Mapping", "typing.Mapping"):
            return eng.isinstance(v, dict)
        if name in ("collections.abc.Set",):
            return eng.isinstance(v, (set, frozenset))
        if name in ("collections.abc.Iterable", "typing.Iterable", "collections.abc.Collection", "collections.abc.Container", "collections.abc.Sized"):
            if isinstance(v, (ListV, DictV, SetV, tuple, frozenset, str, bytes, range)):
                return True
            if isinstance(v, (int, float, FuncV)) or v is None:
                return False
        if not isinstance(v, AbsVal) or isinstance(v, (HeapObj, Aff)):
            return False
        if isinstance(v, ExcV):
            return exc_is(v.cls, ExtV(name))
        if isinstance(v, Term) and v.kind in ("int", "str", "bytes", "list", "dict", "set", "bool"):
            return False
        return eng.lit(Term("isinstance", (v, name), "bool"))

    def eq_const(self, eng, x, y):
        for h in self.eq_hooks:
            r = h(eng, x, y)
            if r is not None:
                return r
        return None

    # terms ----------------------------------------------------------------

    def term_getitem(self, eng, o, i):
        for h in self.getitem_hooks:
            r = h(eng, o, i)
            if r is not NotImplemented:
                return r
        if o.kind in ("bytes", "str"):
            if isinstance(i, slice):
                return bytes_slice(eng, o, i)
            if to_aff(i) is not None:
                base, lo, hi = slice_parts(o)
                a = to_aff(i)
                if not a.c and a.k < 0:
                    if hi is None:
                        return Term("byte", (o, i), "int") if o.kind == "bytes" else Term("char", (o, i), "str")
                    return Term("byte", (base, add(hi, i)), "int")
                return Term("byte" if o.kind == "bytes" else "char", (base, add(lo, i)), "int" if o.kind == "bytes" else "str")
        return Term("index", (o, i))

    def term_iter(self, eng, t, cb):
        for h in self.iter_hooks:
            r = h(eng, t, cb)
            if r is not NotImplemented:
                return
        # zero, one or two generic items
        n = eng.choose(eng.loop_bound + 1, f"items of {t!r}")
        for i in range(n):
            cb(Term("elem", (t, i)))

    def to_str(self, eng, x):
        if is_conc(x):
            return str(x)
        if isinstance(x, (Term, Aff)) and eng.kindof(x) == "str":
            return x
        if isinstance(x, InstV):
            f = x.cls.lookup("__str__")
            if f is MISSING:
                f = x.cls.lookup("__repr__")
            if f is not MISSING:
                return eng.call(BoundV(x, f), [], {})
        return Term("str", (x,), "str")

    def call_type(self, eng, t, args, kw):
        f = TYPES.get(t)
        if f is not None:
            return f(eng, args, kw)
        if issubclass(t, BaseException):
            return ExcV(t, args)
        if all(is_conc(a) for a in args) and not kw:
            try:
                return t(*args)
            except Exception as e:  # noqa: BLE001
                eng.throw(type(e), *e.args)
        raise Undecided(f"call of {t}")

    # methods --------------------------------------------------------------

    def method(self, eng, o, name, args, kw):
        m = self.methods.get(name)
        if m is not None:
            r = m(eng, o, args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(o, type):
            if args and not isinstance(o, AbsVal):
                if o is int and name == "from_bytes":
                    return int_from_bytes(eng, args, kw)
                if o is bytes and name == "fromhex" and is_conc(args[0]):
                    return bytes.fromhex(args[0])
                if o is dict and name == "fromkeys":
                    v = args[1] if len(args) > 1 else None
                    d = DictV()
                    eng.iterate(args[0], lambda k: eng.dict_set(d, k, v))
                    return eng.persist(d)
                if o is str and name == "maketrans":
                    return Term("maketrans", tuple(args))
                if o is object and name == "__new__":
                    return InstV(args[0])
                return eng.call(eng.getattr(args[0], name), args[1:], kw)
            if o is object and name == "__init__":
                return None
        if isinstance(o, StructV):
            return struct_method(eng, o, name, args, kw)
        if isinstance(o, ReV):
            return re_method(eng, o, name, args, kw)
        if isinstance(o, ListV):
            return list_method(eng, o, name, args, kw)
        if isinstance(o, DictV):
            return dict_method(eng, o, name, args, kw)
        if isinstance(o, SetV):
            return set_method(eng, o, name, args, kw)
        if isinstance(o, frozenset) and not (is_conc(o) and all(is_conc(a) for a in args)):
            if name == "__contains__":
                return eng.contains(o, args[0])
            return set_method(eng, SetV(o), name, args, kw)
        if isinstance(o, frozenset) and name == "__contains__":
            return eng.contains(o, args[0])
        if isinstance(o, slice) and name == "indices":
            return slice_indices(eng, o, args[0])
        if isinstance(o, (GenV, IterV)):
            if name == "__next__":
                return b_next(eng, [o], {})
            if name == "close":
                if isinstance(o, GenV):
                    o.used = True
                    if o.lazy is not None:
                        o.lazy.close()
                return None
        if isinstance(o, (str, bytes)):
            r = str_method(eng, o, name, args, kw)
            if r is not NotImplemented:
                return r
        if is_conc(o) and all(is_conc(a) for a in args) and all(is_conc(a) for a in kw.values()):
            try:
                r = getattr(o, name)(*args, **kw)
            except Exception as e:  # noqa: BLE001
                eng.throw(type(e), *e.args)
            return unfold(eng, r)
        if isinstance(o, Term) and o.kind in ("str", "bytes"):
            return term_str_method(eng, o, name, args, kw)
        if isinstance(o, (str, bytes)):
            eng.opaque("." + name)
        return Term("m:" + name, (o, *args, *(x for k in sorted(kw) for x in (k, kw[k]))), type(o).__name__)
        if isinstance(o, tuple):
            if name == "index":
                for i, x in enumerate(o):
                    if eng.truth(eng.compare("Eq", x, args[0])):
                        return i
                eng.throw(ValueError)
            if name == "count":
                return sum(1 for x in o if eng.truth(eng.compare("Eq", x, args[0])))
            if name == "__contains__":
                return eng.contains(o, args[0])
        if name == "to_bytes" and to_aff(o) is not None and not is_conc(o):
            n = args[0] if args else kw.get("length", 1)
            order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
            code = {1: "B", 2: "H", 4: "I", 8: "Q"}.get(n)
            if code and order == "little":
                return struct_method(eng, StructV("<" + code), "pack", [o], {})
            return Term("to_bytes", (o, n, order), "bytes")
        if name == "bit_length" and to_aff(o) is not None:
            return Term("bit_length", (o,), "int")
        return self.default_method(eng, o, name, args, kw)


def unfold(eng, r):
    """Mutable results of folded library methods become heap objects."""
    if isinstance(r, list):
        return ListV([unfold(eng, x) for x in r])
    if isinstance(r, set):
        return SetV(r)
    if isinstance(r, dict):
        return DictV(list(r.items()))
    return r


# ------------------------------------------------------------------ byte slices


def slice_parts(t):
    """(base, low, high or None) of a byte or text term."""
    if isinstance(t, Term) and t.op == "slice":
        return t.args
    return (t, 0, None)


def mk_slice(base, lo, hi, kind="bytes"):
    if hi is None and lo == 0:
        return base
    if hi is not None and hi is not lo and isinstance(lo, int) and isinstance(hi, int) and hi <= lo:
        return b"" if kind == "bytes" else ""
    return Term("slice", (base, lo, hi), kind)


def bytes_slice(eng, o, i):
    if i.step not in (None, 1):
        return Term("slicestep", (o, i.start, i.stop, i.step), o.kind)
    base, lo, hi = slice_parts(o)
    a = 0 if i.start is None else i.start
    b = i.stop

    def fix(v):
        """Negative bounds count from the end, when it is known."""
        if isinstance(v, int) and v < 0:
            if hi is None:
                return None
            return add(sub(hi, lo), v)
        return v

    a2 = fix(a)
    if a2 is None:
        return Term("slice", (o, a, b), o.kind)
    if b is None:
        return mk_slice(base, add(lo, a2), hi, o.kind)
    b2 = fix(b)
    if b2 is None:
        return Term("slice", (o, a, b), o.kind)
    if to_aff(a2) is None or to_aff(b2) is None:
        return Term("slice", (o, a, b), o.kind)
    nhi = add(lo, b2)
    if hi is not None:
        # min(nhi, hi)
        d = aff_add(to_aff(hi), to_aff(nhi), -1)
        if not d.c:
            if d.k < 0:
                nhi = hi
        elif not eng.must_ge(d):
            if eng.must_ge(aff_scale(d, -1)):
                nhi = hi
            else:
                return Term("slice", (o, a, b), o.kind)
    nlo = add(lo, a2)
    d = aff_add(to_aff(nhi), to_aff(nlo), -1)
    if not d.c and d.k <= 0:
        return b"" if o.kind == "bytes" else ""
    return mk_slice(base, nlo, nhi, o.kind)


def slice_len(eng, t):
    base, lo, hi = slice_parts(t)
    if hi is None:
        return None
    return sub(hi, lo)


_CODES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8}


def fmt_fields(fmt):
    order = "@"
    if fmt and fmt[0] in "<>=!@":
        order, fmt = fmt[0], fmt[1:]
    out = []
    off = 0
    for n, c in _re.findall(r"(\d*)([a-zA-Z?])", fmt):
        n = int(n) if n else 1
        if c == "s":
            out.append(("s", off, n))
            off += n
            continue
        if c == "x":
            off += n
            continue
        if c not in _CODES:
            raise Undecided(f"struct format {c}")
        for _ in range(n):
            sz = _CODES[c]
            if order == "@" and off % sz:
                off += sz - off % sz
            out.append((c, off, sz))
            off += sz
    return order, out


def uint_term(eng, data, off, size, signed=False, order="<"):
    base, lo, hi = slice_parts(data)
    if order in ("<", "@", "=") or size == 1:
        return Term("sint" if signed else "uint", (base, add(lo, off), size), "int")
    return Term("sintbe" if signed else "uintbe", (base, add(lo, off), size), "int")


def struct_method(eng, s, name, args, kw):
    order, fields = fmt_fields(s.fmt)
    if name in ("unpack", "unpack_from", "iter_unpack"):
        data = args[0]
        off0 = args[1] if len(args) > 1 else kw.get("offset", 0)
        if is_conc(data) and is_conc(off0):
            try:
                return _struct.unpack(s.fmt, data) if name == "unpack" else _struct.unpack_from(s.fmt, data, off0)
            except _struct.error as e:
                eng.throw(ExtV("struct.error"), *e.args)
        if isinstance(data, AbsVal):
            r = data.v_call(eng, ["__unpack__", s.fmt, off0, name != "unpack"], {}) if hasattr(data, "unpack_model") else NotImplemented
            if r is not NotImplemented:
                return r
        if not isinstance(data, Term):
            raise Undecided(f"unpack of {short(data)}")
        if name == "unpack":
            n = slice_len(eng, data)
            if n is not None and not eng.truth(eng.compare("Eq", n, s.size)):
                eng.throw(ExtV("struct.error"), "size")
        out = []
        for c, off, sz in fields:
            if c == "s":
                base, lo, hi = slice_parts(data)
                out.append(mk_slice(base, add(lo, add(off0, off)), add(lo, add(off0, off + sz))))
            elif c in "fd":
                base, lo, hi = slice_parts(data)
                out.append(Term("float", (base, add(lo, add(off0, off)), sz), "float"))
            else:
                out.append(uint_term(eng, data, add(off0, off), sz, c.islower(), order))
        return tuple(out)
    if name == "pack":
        if all(is_conc(a) for a in args):
            try:
                return _struct.pack(s.fmt, *args)
            except _struct.error as e:
                eng.throw(ExtV("struct.error"), *e.args)
        if len(args) != len(fields):
            eng.throw(ExtV("struct.error"), "arguments")
        parts = []
        for (c, off, sz), a in zip(fields, args):
            parts.append(pack_term(eng, order, c, sz, a))
        return eng.cat(parts, "bytes")
    raise Undecided(f"struct {name}")


def pack_term(eng, order, c, sz, a):
    if isinstance(a, AbsVal) and hasattr(a, "v_pack"):
        return a.v_pack(eng, order, c, sz)
    if is_conc(a):
        try:
            return _struct.pack(("<" if order == "@" else order) + c, a)
        except _struct.error as e:
            eng.throw(ExtV("struct.error"), *e.args)
    if isinstance(a, (Term, Aff)) and c.isupper():
        from .bits import lift

        b = lift(eng, a)
        if b is not None:
            return b.v_pack(eng, order, c, sz)
    le = order in ("<", "@", "=") or sz == 1
    if isinstance(a, Term) and a.op == ("uint" if le else "uintbe") and a.args[2] == sz and c.isupper():
        return mk_slice(a.args[0], a.args[1], add(a.args[1], sz))
    return Term("pack" if le else "packbe", (a, sz, "u" if c.isupper() else "s"), "bytes")


def int_from_bytes(eng, args, kw):
    data = args[0]
    order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
    signed = kw.get("signed", False)
    if is_conc(data):
        return int.from_bytes(data, order, signed=signed)
    if isinstance(data, AbsVal) and hasattr(data, "v_from_bytes"):
        return data.v_from_bytes(eng, order, signed)
    if isinstance(data, Term) and data.op == "pack" and order == "little" and not signed and data.args[2] == "u":
        return data.args[0]
    if isinstance(data, Term):
        n = slice_len(eng, data)
        if isinstance(n, int):
            return uint_term(eng, data, 0, n, signed, "<" if order == "little" else ">")
    return Term("from_bytes", (data, order, signed), "int")


def slice_indices(eng, s, n):
    if is_conc(s) and is_conc(n):
        return s.indices(n)
    step = 1 if s.step is None else s.step
    if not isinstance(step, int) or step == 0:
        raise Undecided("symbolic step")

    def clip(v, default, neg_lo, hi):
        if v is None:
            return default
        if eng.truth(eng.compare("Lt", v, 0)):
            v = eng.binop("Add", v, n)
            if eng.truth(eng.compare("Lt", v, neg_lo)):
                return neg_lo
            return v
        if eng.truth(eng.compare("Gt", v, hi)):
            return hi
        return v

    if step > 0:
        return (clip(s.start, 0, 0, n), clip(s.stop, n, 0, n), step)
    nm = eng.binop("Sub", n, 1)
    return (clip(s.start, nm, -1, nm), clip(s.stop, -1, -1, nm), step)


# ------------------------------------------------------------------ strings


def str_method(eng, o, name, args, kw):
    if name == "join":
        items = eng.to_list(args[0])
        if isinstance(o, str):
            for x in items:
                k = eng.kindof(x)
                if k not in ("str", "obj"):
                    eng.throw(TypeError, "join")
        else:
            mk = [x for x in items if isinstance(x, AbsVal) and hasattr(x, "v_bytes")]
            if mk:
                return mk[0].v_bytes(eng, items, o)
        if not o:
            return eng.cat(items, type(o).__name__)
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(o)
            out.append(x)
        return eng.cat(out, type(o).__name__)
    if name == "format" and isinstance(o, str) and not all(is_conc(a) for a in [*args, *kw.values()]):
        import string

        parts = []
        auto = 0
        for lit_, field, spec, conv in string.Formatter().parse(o):
            parts.append(lit_)
            if field is None:
                continue
            m = _re.match(r"([^.\[]*)(.*)$", field)
            head, rest = m.group(1), m.group(2)
            if head == "":
                v = args[auto]
                auto += 1
            elif head.isdigit():
                v = args[int(head)]
            else:
                v = kw[head]
            for at in _re.findall(r"\.(\w+)", rest):
                v = eng.getattr(v, at)
            parts.append(eng.fmt(v, ord(conv) if conv else -1, spec or ""))
        return eng.cat(parts, "str")
    if name == "encode" and isinstance(o, str) and all(is_conc(a) for a in args):
        try:
            return o.encode(*args, **kw)
        except Exception as e:  # noqa: BLE001
            eng.throw(type(e), *e.args)
    return NotImplemented


def strip_term(eng, o, name):
    """Stripping in normal form."""
    if o.op in ("strip", "solid", name):
        return o
    if o.op in ("lstrip", "rstrip"):
        name, o = "strip", o.args[0]
    if o.op == "cat":
        parts = list(o.args)
        if name != "rstrip":
            while parts and isinstance(parts[0], (str, bytes)):
                parts[0] = parts[0].lstrip()
                if parts[0]:
                    break
                parts.pop(0)
        if name != "lstrip":
            while parts and isinstance(parts[-1], (str, bytes)):
                parts[-1] = parts[-1].rstrip()
                if parts[-1]:
                    break
                parts.pop()
        o2 = eng.cat(parts, o.kind)
        if not isinstance(o2, Term):
            return o2
        if o2.op == "strip":
            return o2
        if o2.op == "cat" and isinstance(o2.args[0], (str, bytes)) and name == "strip" and isinstance(o2.args[-1], (str, bytes)):
            return o2
        o = o2
    return Term(name, (o,), o.kind)


def term_str_method(eng, o, name, args, kw):
    if name in ("strip", "lstrip", "rstrip") and (not args or args[0] is None):
        return strip_term(eng, o, name)
    if name == "encode":
        enc = codec_name(args[0] if args else kw.get("encoding", "utf-8"))
        err = args[1] if len(args) > 1 else kw.get("errors", "strict")
        if o.op == "decode" and o.args[1] == enc and err == "strict":
            return o.args[0]
        return Term("encode", (o, enc) if err == "strict" else (o, enc, err), "bytes")
    if name == "decode":
        enc = codec_name(args[0] if args else kw.get("encoding", "utf-8"))
        err = args[1] if len(args) > 1 else kw.get("errors", "strict")
        if o.op == "encode" and o.args[1] == enc and len(o.args) == 2 and err == "strict":
            return o.args[0]
        return Term("decode", (o, enc) if err == "strict" else (o, enc, err), "str")
    if name in ("startswith", "endswith", "isdigit", "isalpha", "isspace", "isupper", "islower", "isnumeric", "isalnum", "isdecimal", "isascii"):
        return Term("m:" + name, (o, *args), "bool")
    if name in ("find", "rfind", "index", "rindex", "count", "__len__"):
        if name == "__len__":
            return b_len(eng, [o], {})
        return Term("m:" + name, (o, *args), "int")
    if name == "join":
        items = eng.to_list(args[0])
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(o)
            out.append(x)
        return eng.cat(out, o.kind)
    if name in ("split", "rsplit", "partition", "rpartition") and args and isinstance(args[0], str) and args[0]:
        r = split_known(eng, o, name, args[0], args[1] if len(args) > 1 else kw.get("maxsplit", -1))
        if r is not None:
            return r
    if name == "split" or name == "rsplit":
        return Term("m:" + name, (o, *args, *(x for k in sorted(kw) for x in (k, kw[k]))), "list")
    if name == "replace" and o.kind == "str" and len(args) == 2 and isinstance(args[0], str) and len(args[0]) == 1 and isinstance(args[1], str):
        return charmap(eng, o, {args[0]: args[1]})
    if name == "translate" and isinstance(args[0], Term) and args[0].op == "maketrans":
        return charmap(eng, o, char_table(eng, args[0].args))
    if name == "partition" or name == "rpartition":
        return tuple(Term("index", (Term("m:" + name, (o, *args)), i), o.kind) for i in range(3))
    if name == "__contains__":
        return eng.contains(o, args[0])
    if name == "hex":
        return Term("m:hex", (o, *args), "str")
    return Term("m:" + name, (o, *args, *(x for k in sorted(kw) for x in (k, kw[k]))), o.kind)


class MatchV(AbsVal):
    kind = "match"

    def __init__(self, m):
        self.m = m

    def v_truth(self, eng):
        return True

    def v_getitem(self, eng, i):
        try:
            return self.m[i]
        except IndexError:
            eng.throw(IndexError, "no such group")

    def v_getattr(self, eng, name):
        if name in ("group", "groups", "start", "end", "span", "groupdict", "expand"):

            def f(e, a, k):
                try:
                    r = getattr(self.m, name)(*a, **k)
                except IndexError:
                    eng.throw(IndexError, "no such group")
                return DictV(list(r.items())) if isinstance(r, dict) else r

            return Builtin(name, f)
        return unfold(eng, getattr(self.m, name)) if name in ("string", "pos", "endpos", "lastindex", "lastgroup") else NotImplemented


def charmap(eng, o, m):
    """Replacement of single characters, in normal form: what becomes of each character."""
    if isinstance(o, str):
        return "".join(m.get(c, c) for c in o)
    if o.op == "cat":
        return eng.cat([charmap(eng, x, m) for x in o.args], "str")
    old = {}
    if o.op == "charmap":
        old = dict(o.args[1])
        o = o.args[0]
    new = {c: "".join(m.get(x, x) for x in r) for c, r in old.items()}
    for c, r in m.items():
        new.setdefault(c, r)
    return Term("charmap", (o, tuple(sorted(new.items()))), "str")


def char_table(eng, args):
    if len(args) == 1:
        d = {}
        for k, v in args[0].items.values() if isinstance(args[0], DictV) else args[0].items():
            d[chr(k) if isinstance(k, int) else k] = "" if v is None else chr(v) if isinstance(v, int) else v
        return d
    d = dict(zip(args[0], args[1]))
    if len(args) > 2:
        d.update(dict.fromkeys(args[2], ""))
    return d


def xml_escape(eng, args, kw):
    ent = args[1] if len(args) > 1 else kw.get("entities")
    o = args[0]
    for a, b in (("&", "&amp;"), (">", "&gt;"), ("<", "&lt;"), *((ent.items.values() if isinstance(ent, DictV) else ent.items()) if ent is not None else ())):
        o = eng.call(eng.getattr(o, "replace"), [a, b], {})
    return o


def xml_quoteattr(eng, args, kw):
    from xml.sax.saxutils import quoteattr

    ent = args[1] if len(args) > 1 else kw.get("entities")
    m = dict(ent.items.values()) if isinstance(ent, DictV) else dict(ent or {})
    if isinstance(args[0], str):
        return quoteattr(args[0], m)
    if m:
        raise Undecided("quoteattr with entities")
    return Term("quoteattr", (args[0],), "str")


def html_escape(eng, args, kw):
    o = args[0]
    q = args[1] if len(args) > 1 else kw.get("quote", True)
    for a, b in (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"), *(((chr(34), "&quot;"), ("'", "&#x27;")) if q else ())):
        o = eng.call(eng.getattr(o, "replace"), [a, b], {})
    return o


def split_known(eng, o, name, sep, n):
    """Splitting of a text whose unknown parts are known not to contain the separator."""
    free = eng.path.data.get("without", {})
    parts = o.args if o.op == "cat" else (o,)
    for p in parts:
        if not isinstance(p, str) and (len(sep) != 1 or sep not in free.get(p, "")):
            return None
    pieces = [[]]
    for p in parts:
        if isinstance(p, str):
            first, *rest = p.split(sep)
            pieces[-1].append(first)
            pieces += [[x] for x in rest]
        else:
            pieces[-1].append(p)
    pieces = [eng.cat(x, "str") for x in pieces]
    glue = lambda xs: eng.cat([y for i, x in enumerate(xs) for y in ((sep, x) if i else (x,))], "str")  # noqa: E731
    if name in ("partition", "rpartition"):
        if len(pieces) == 1:
            return (o, "", "") if name == "partition" else ("", "", o)
        if name == "partition":
            return (pieces[0], sep, glue(pieces[1:]))
        return (glue(pieces[:-1]), sep, pieces[-1])
    if n is None or not isinstance(n, int):
        return None
    if 0 <= n < len(pieces) - 1:
        pieces = [*pieces[:n], glue(pieces[n:])] if name == "split" else [glue(pieces[: len(pieces) - n]), *pieces[len(pieces) - n :]]
    return ListV(pieces)


def re_method(eng, o, name, args, kw):
    if all(is_conc(a) for a in args) and not kw:
        r = getattr(o.rx, name)(*args)
        if r is None or isinstance(r, (str, bytes, tuple)):
            return r
        if isinstance(r, list):
            return ListV(r)
        if isinstance(r, _re.Match):
            return MatchV(r)
        if name == "finditer":
            return ListV([MatchV(m) for m in r])
    if name in ("search", "match", "fullmatch"):
        return Term("re:" + name, (o.pattern, o.flags, *args), "obj", True)
    if name == "sub":
        return Term("re:sub", (o.pattern, o.flags, *args), "str")
    return Term("re:" + name, (o.pattern, o.flags, *args))


# ------------------------------------------------------------------ containers


def list_method(eng, o, name, args, kw):
    it = o.items
    if name == "append":
        it.append(args[0])
        return None
    if name == "extend":
        for x in eng.to_list(args[0]):
            it.append(x)
        return None
    if name == "insert":
        it.insert(args[0], args[1])
        return None
    if name == "clear":
        o.items.clear()
        return None
    if name == "copy" or name == "__copy__":
        return ListV(it)
    if name == "pop":
        if not it:
            eng.throw(IndexError, "pop from empty list")
        return it.pop(*args)
    if name == "reverse":
        it.reverse()
        return None
    if name == "sort":
        o.items[:] = sort_items(eng, it, kw)
        return None
    if name == "index":
        for i, x in enumerate(it):
            if eng.truth(eng.compare("Eq", x, args[0])):
                return i
        eng.throw(ValueError, "not in list")
    if name == "count":
        return sum(1 for x in it if eng.truth(eng.compare("Eq", x, args[0])))
    if name == "remove":
        for i, x in enumerate(it):
            if eng.truth(eng.compare("Eq", x, args[0])):
                del it[i]
                return None
        eng.throw(ValueError, "not in list")
    if name == "__len__":
        return len(it)
    if name == "__contains__":
        return eng.contains(o, args[0])
    if name == "__getitem__":
        return eng.getitem(o, args[0])
    if name == "__iter__":
        return IterV(it)
    raise Undecided(f"list.{name}")


def dict_method(eng, o, name, args, kw):
    if name == "get":
        return eng.dict_get(o, args[0], args[1] if len(args) > 1 else kw.get("default"))
    if name == "__getitem__":
        return eng.getitem(o, args[0])
    if name == "__contains__":
        return eng.contains(o, args[0])
    if name == "__setitem__":
        eng.dict_set(o, args[0], args[1])
        return None
    if name == "keys":
        return ListV([k for k, _ in o.items.values()])
    if name == "values":
        return ListV([v for _, v in o.items.values()])
    if name == "items":
        return ListV([(k, v) for k, v in o.items.values()])
    if name == "setdefault":
        r = eng.dict_get(o, args[0])
        if r is MISSING:
            r = args[1] if len(args) > 1 else None
            eng.dict_set(o, args[0], r)
        return r
    if name == "pop":
        x = eng.dict_find(o, args[0])
        if x is None:
            if len(args) > 1:
                return args[1]
            eng.throw(KeyError, args[0])
        return o.items.pop(x)[1]
    if name == "popitem":
        if not o.items:
            eng.throw(KeyError, "empty")
        return o.items.popitem()[1]
    if name == "clear":
        o.items.clear()
        return None
    if name == "copy":
        return DictV(list(o.items.values()))
    if name == "update":
        if args:
            a = args[0]
            if isinstance(a, DictV):
                for k, v in list(a.items.values()):
                    eng.dict_set(o, k, v)
            else:
                for x in eng.to_list(a):
                    k, v = eng.to_list(x)
                    eng.dict_set(o, k, v)
        for k, v in kw.items():
            eng.dict_set(o, k, v)
        return None
    if name == "__len__":
        return len(o.items)
    raise Undecided(f"dict.{name}")


def set_method(eng, o, name, args, kw):
    if name == "add":
        eng.set_add(o, args[0])
        return None
    if name == "update":
        for a in args:
            eng.iterate(a, lambda x: eng.set_add(o, x))
        return None
    if name in ("discard", "remove"):
        if ckey(args[0]) in o.items:
            del o.items[ckey(args[0])]
        elif name == "remove":
            eng.throw(KeyError, args[0])
        return None
    if name == "__contains__":
        return eng.contains(o, args[0])
    if name == "copy":
        return SetV(o.items.values())
    if name == "clear":
        o.items.clear()
        return None
    if name in ("union", "intersection", "difference"):
        r = SetV(o.items.values())
        for a in args:
            b = SetV(eng.to_list(a))
            r = eng.binop({"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name], r, b)
        return r
    if name in ("issubset", "issuperset", "isdisjoint"):
        b = {ckey(x) for x in eng.to_list(args[0])}
        a = set(o.items)
        return {"issubset": a <= b, "issuperset": a >= b, "isdisjoint": not (a & b)}[name]
    if name == "pop":
        if not o.items:
            eng.throw(KeyError)
        return o.items.pop(next(iter(o.items)))
    if name == "__len__":
        return len(o.items)
    raise Undecided(f"set.{name}")


def sort_items(eng, items, kw):
    key = kw.get("key")
    rev = kw.get("reverse", False)
    keys = [eng.call(key, [x], {}) if key is not None else x for x in items]
    if all(is_conc(k) for k in keys):
        try:
            order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev))
        except TypeError as e:
            eng.throw(TypeError, *e.args)
        return [items[i] for i in order]
    # insertion sort with decisions
    out = []
    for i, x in enumerate(items):
        j = len(out)
        while j > 0:
            lt = eng.truth(eng.compare("Lt", keys[i], out[j - 1][0]))
            if not lt:
                break
            j -= 1
        out.insert(j, (keys[i], x))
    r = [x for _, x in out]
    return r[::-1] if rev else r


# ------------------------------------------------------------------ builtins


def b_len(eng, args, kw):
    v = args[0]
    if isinstance(v, AbsVal):
        r = v.v_len(eng)
        if r is not NotImplemented:
            return r
    if isinstance(v, (ListV, SetV, DictV)):
        return len(v.items)
    if isinstance(v, (str, bytes, tuple, frozenset, range)):
        return len(v)
    if isinstance(v, RangeV):
        if v.step == 1:
            if eng.truth(eng.compare("GtE", v.start, v.stop)):
                return 0
            return eng.binop("Sub", v.stop, v.start)
        if isinstance(v.step, int) and v.step != 0:
            lo, hi = (v.start, v.stop) if v.step > 0 else (v.stop, v.start)
            if eng.truth(eng.compare("GtE", lo, hi)):
                return 0
            n = abs(v.step)
            return eng.binop("FloorDiv", eng.binop("Add", eng.binop("Sub", hi, lo), n - 1), n)
    if isinstance(v, InstV):
        f = v.cls.lookup("__len__")
        if f is not MISSING:
            return eng.call(BoundV(v, f), [], {})
        eng.throw(TypeError, "len")
    if isinstance(v, Term):
        if v.kind in ("str", "bytes"):
            n = slice_len(eng, v)
            if n is not None:
                return n
        if v.op == "encode" and v.args[1] in ("utf-16-le", "utf-16-be", "utf-16"):
            from .bits import to_bytestr

            return to_bytestr(eng, v).v_len(eng)
        return Term("len", (v,), "int")
    if v is None or isinstance(v, (int, float)):
        eng.throw(TypeError, "len")
    raise Undecided(f"len of {short(v)}")


def b_next(eng, args, kw):
    it = args[0]
    if isinstance(it, AbsVal):
        r = it.v_call(eng, ["__next__"], {}) if getattr(it, "is_iterator", False) else NotImplemented
        if r is not NotImplemented:
            return r
    if isinstance(it, IterV):
        if it.pos < len(it.items):
            it.pos += 1
            return it.items[it.pos - 1]
    elif isinstance(it, GenV):
        x = eng.lazy(it).next()
        if x is not None:
            return x[0]
    elif isinstance(it, InstV):
        return eng.call(eng.getattr(it, "__next__"), [], {})
    elif isinstance(it, Term):
        got = []

        def cb(x):
            got.append(x)
            raise StopConsume

        eng.iterate(it, cb)
        if got:
            return got[0]
    else:
        eng.throw(TypeError, "not an iterator")
    if len(args) > 1:
        return args[1]
    eng.throw(StopIteration)


def b_iter(eng, args, kw):
    if len(args) == 2:
        f, sentinel = args

        def run(cb):
            n = 0
            while True:
                x = eng.call(f, [], {})
                if eng.truth(eng.is_(x, sentinel)) or (
                    not isinstance(x, AbsVal) and eng.truth(eng.compare("Eq", x, sentinel))
                ):
                    return
                cb(x)
                n += 1
                if n > max(500, eng.step_limit // 100):
                    raise Undecided("iter(callable) bound")

        return GenV(None, None, run)
    v = args[0]
    if isinstance(v, (GenV, IterV)):
        return v
    if isinstance(v, InstV):
        return eng.call(eng.getattr(v, "__iter__"), [], {})
    if isinstance(v, ListV):
        return IterV(v.items)
    if isinstance(v, Term):
        return v
    if isinstance(v, AbsVal) and getattr(v, "is_iterator", False):
        return v
    return IterV(eng.to_list(v))


def b_isinstance(eng, args, kw):
    c = args[1]
    if isinstance(c, tuple):
        c = tuple(c)
    return eng.isinstance(args[0], c)


def b_range(eng, args, kw):
    if all(is_conc(a) for a in args):
        try:
            return range(*args)
        except Exception as e:  # noqa: BLE001
            eng.throw(type(e), *e.args)
    if len(args) == 1:
        return RangeV(0, args[0], 1)
    return RangeV(args[0], args[1], args[2] if len(args) > 2 else 1)


def b_enumerate(eng, args, kw):
    it = args[0]
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    if isinstance(it, (ListV, tuple, IterV)) and not isinstance(it, IterV):
        return IterV([(add_any(eng, start, i), x) for i, x in enumerate(eng.to_list(it))])

    def run(cb):
        n = [start]

        def f(x):
            i = n[0]
            n[0] = eng.binop("Add", n[0], 1)
            cb((i, x))

        eng.iterate_raw(it, f)

    return GenV(None, None, run)


def add_any(eng, a, i):
    return eng.binop("Add", a, i)


def b_zip(eng, args, kw):
    if any(isinstance(a, GenV) for a in args) and not kw.get("strict"):
        # step by step: some may not end
        its = [eng.lazy(a) if isinstance(a, GenV) else iter(eng.to_list(a)) for a in args]

        def run(cb):
            while True:
                row = []
                for it in its:
                    x = it.next() if isinstance(it, Lazy) else next(((y,) for y in it), None)
                    if x is None:
                        return
                    row.append(x[0])
                cb(tuple(row))

        return GenV(None, None, run)
    lists = [eng.to_list(a) for a in args]
    if kw.get("strict") and len({len(x) for x in lists}) > 1:
        eng.throw(ValueError, "zip")
    return IterV(list(zip(*lists)))


def b_any(eng, args, kw):
    r = []

    def cb(x):
        if eng.truth(x):
            r.append(1)
            raise StopConsume

    eng.iterate(args[0], cb)
    return bool(r)


def b_all(eng, args, kw):
    r = []

    def cb(x):
        if not eng.truth(x):
            r.append(1)
            raise StopConsume

    eng.iterate(args[0], cb)
    return not r


def b_sum(eng, args, kw):
    acc = [args[1] if len(args) > 1 else kw.get("start", 0)]
    eng.iterate(args[0], lambda x: acc.__setitem__(0, eng.binop("Add", acc[0], x)))
    return acc[0]


def _minmax(op):
    def f(eng, args, kw):
        key = kw.get("key")
        items = eng.to_list(args[0]) if len(args) == 1 else list(args)
        if not items:
            if "default" in kw:
                return kw["default"]
            eng.throw(ValueError, "empty iterable")
        best = items[0]
        bk = eng.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            k = eng.call(key, [x], {}) if key is not None else x
            if eng.truth(eng.compare(op, k, bk)):
                best, bk = x, k
        return best

    return f


def b_sorted(eng, args, kw):
    return ListV(sort_items(eng, eng.to_list(args[0]), kw))


def b_reversed(eng, args, kw):
    v = args[0]
    if isinstance(v, AbsVal):
        f = getattr(v, "v_reversed", None)
        if f is not None:
            return f(eng)
    return IterV(eng.to_list(v)[::-1])


def b_map(eng, args, kw):
    f, *its = args
    if len(its) == 1:
        return GenV(None, None, lambda cb: eng.iterate_raw(its[0], lambda x: cb(eng.call(f, [x], {}))))
    return GenV(None, None, lambda cb: [cb(eng.call(f, list(xs), {})) for xs in zip(*map(eng.to_list, its))])


def b_filter(eng, args, kw):
    f, it = args

    def run(cb):
        def g(x):
            if eng.truth(x if f is None else eng.call(f, [x], {})):
                cb(x)

        eng.iterate_raw(it, g)

    return GenV(None, None, run)


def b_getattr(eng, args, kw):
    try:
        return eng.getattr(args[0], args[1])
    except PyExc as e:
        if len(args) > 2 and exc_is(e.val.cls, AttributeError):
            return args[2]
        raise


def b_hasattr(eng, args, kw):
    try:
        eng.getattr(args[0], args[1])
    except PyExc as e:
        if exc_is(e.val.cls, AttributeError):
            return False
        raise
    return True


def b_setattr(eng, args, kw):
    eng.setattr(args[0], args[1], args[2])


def call_callable(eng, args, kw):
    v = args[0]
    if isinstance(v, (FuncV, BoundV, ClassV, Builtin, MethV, ExtV, Partial, type)):
        return True
    if isinstance(v, Term):
        if v.maybe_none and eng.lit(Term("isnone", (v,), "bool")):
            return False
        if v.kind in ("func", "function"):
            return True
        if v.kind != "obj":
            return False
        return eng.lit(Term("callable", (v,), "bool"))
    if isinstance(v, InstV):
        return v.cls.lookup("__call__") is not MISSING
    if isinstance(v, AbsVal) and type(v).v_call is not AbsVal.v_call:
        return getattr(v, "is_callable", True)
    return False


def b_print(eng, args, kw):
    return None


def b_id(eng, args, kw):
    return Term("id", (args[0],), "int")


def b_hash(eng, args, kw):
    return Term("hash", (args[0],), "int")


def b_repr(eng, args, kw):
    v = args[0]
    if is_conc(v):
        return repr(v)
    return Term("repr", (v,), "str")


def _fold(name):
    f = getattr(builtins, name)

    def g(eng, args, kw):
        if all(is_conc(a) for a in args):
            try:
                return unfold(eng, f(*args, **kw))
            except Exception as e:  # noqa: BLE001
                eng.throw(type(e), *e.args)
        for a in args:
            if hasattr(a, "v_fold"):
                r = a.v_fold(eng, name, args, kw)
                if r is not NotImplemented:
                    return r
        if name == "abs":
            return Term("abs", tuple(args), eng.kindof(args[0]))
        if name == "chr":
            return Term("chr", tuple(args), "str")
        if name == "ord":
            return Term("ord", tuple(args), "int")
        return Term(name, tuple(args))

    return g


def b_open(eng, args, kw):
    f = eng.lib.calls.get("builtins.open")
    if f:
        return f(eng, args, kw)
    return Term("call:open", tuple(args))


def b_super(eng, args, kw):
    raise Undecided("super()")


BUILTINS = {
    "len": b_len,
    "next": b_next,
    "iter": b_iter,
    "isinstance": b_isinstance,
    "issubclass": lambda e, a, k: exc_is(a[0], a[1]),
    "range": b_range,
    "enumerate": b_enumerate,
    "zip": b_zip,
    "any": b_any,
    "all": b_all,
    "sum": b_sum,
    "min": _minmax("Lt"),
    "max": _minmax("Gt"),
    "sorted": b_sorted,
    "reversed": b_reversed,
    "map": b_map,
    "filter": b_filter,
    "getattr": b_getattr,
    "hasattr": b_hasattr,
    "setattr": b_setattr,
    "callable": call_callable,
    "print": b_print,
    "id": b_id,
    "hash": b_hash,
    "repr": b_repr,
    "abs": _fold("abs"),
    "chr": _fold("chr"),
    "ord": _fold("ord"),
    "hex": _fold("hex"),
    "bin": _fold("bin"),
    "oct": _fold("oct"),
    "round": _fold("round"),
    "divmod": lambda e, a, k: (e.binop("FloorDiv", a[0], a[1]), e.binop("Mod", a[0], a[1])),
    "pow": lambda e, a, k: e.binop("Pow", a[0], a[1]),
    "format": lambda e, a, k: e.fmt(a[0], -1, a[1] if len(a) > 1 else ""),
    "open": b_open,
    "super": b_super,
    "vars": lambda e, a, k: e.getattr(a[0], "__dict__"),
}
BUILTINS = {k: Builtin(k, v) for k, v in BUILTINS.items()}


def t_list(eng, args, kw):
    return ListV(eng.to_list(args[0]) if args else ())


def t_tuple(eng, args, kw):
    return tuple(eng.to_list(args[0])) if args else ()


def t_set(eng, args, kw):
    s = SetV()
    if args:
        if isinstance(args[0], Term) and args[0].kind in ("set", "obj", "list"):
            return Term("setof", (args[0],), "set")
        eng.iterate(args[0], lambda x: eng.set_add(s, x))
    return eng.persist(s)


def t_frozenset(eng, args, kw):
    if not args:
        return frozenset()
    if isinstance(args[0], Term):
        return Term("setof", (args[0],), "set") if args[0].op != "setof" else args[0]
    items = eng.to_list(args[0])
    if any(isinstance(x, HeapObj) for x in items):
        return SetV(items)
    if all(is_conc(x) for x in items):
        return frozenset(items)
    return SetV(items)


def t_dict(eng, args, kw):
    d = DictV()
    dict_method(eng, d, "update", args, kw)
    return eng.persist(d)


def t_bool(eng, args, kw):
    return eng.truth(args[0]) if args else False


def t_int(eng, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, AbsVal) and hasattr(v, "v_int"):
        return v.v_int(eng)
    if is_conc(v) and all(is_conc(a) for a in args):
        try:
            return int(*args, **kw)
        except Exception as e:  # noqa: BLE001
            eng.throw(type(e), *e.args)
    if getattr(eng, "numbers", False) and isinstance(v, Term) and v.kind == "str" and len(args) == 1 and v.op != "str":
        from . import arrays as A

        return A.parse(eng, v, "i8")
    if to_aff(v) is not None:
        return v
    if isinstance(v, Term) and v.kind == "bool":
        return int(eng.truth(v))
    if isinstance(v, Term) and v.op == "str":
        return v.args[0] if to_aff(v.args[0]) is not None else Term("int", (v,), "int")
    return Term("int", tuple(args), "int")


def t_float(eng, args, kw):
    v = args[0] if args else 0.0
    if is_conc(v):
        try:
            return float(v)
        except Exception as e:  # noqa: BLE001
            eng.throw(type(e), *e.args)
    if getattr(eng, "numbers", False):
        from . import arrays as A

        if isinstance(v, Term) and v.kind == "str":
            return A.parse(eng, v, "f8")
        return A.scalar(eng, "f8", [v])
    return Term("float()", (v,), "float")


def t_str(eng, args, kw):
    if not args:
        return ""
    if len(args) > 1 or kw:
        enc = args[1] if len(args) > 1 else kw.get("encoding", "utf-8")
        return eng.call(eng.getattr(args[0], "decode"), [enc], {})
    return eng.lib.to_str(eng, args[0])


def t_bytes(eng, args, kw):
    if not args:
        return b""
    v = args[0]
    if isinstance(v, BArrV):
        return v.val
    if len(args) > 1:
        return eng.call(eng.getattr(v, "encode"), [args[1]], {})
    if is_conc(v):
        return bytes(v)
    if isinstance(v, (Term, AbsVal)) and eng.kindof(v) == "bytes":
        return v
    if isinstance(v, (ListV, tuple, GenV)):
        items = eng.to_list(v)
        if all(is_conc(x) for x in items):
            try:
                return bytes(items)
            except Exception as e:  # noqa: BLE001
                eng.throw(type(e), *e.args)
        return eng.cat([pack_term(eng, "<", "B", 1, x) for x in items], "bytes")
    return Term("bytes()", (v,), "bytes")


class BArrV(HeapObj):
    """A bytearray: a mutable holder of a byte string."""

    __slots__ = ("val",)
    kind = "bytes"

    def __init__(self, val=b""):
        self.val = val

    def v_getattr(self, eng, name):
        f = {"append": self._append, "extend": self._extend, "clear": self._clear}.get(name)
        if f is not None:
            return Builtin(name, f)
        if name in ("__class__",):
            return bytearray
        return eng.getattr(self.val, name)

    def _append(self, eng, a, k):
        x = a[0]
        if is_conc(x):
            if not 0 <= x < 256:
                eng.throw(ValueError, "byte must be in range(0, 256)")
            x = bytes([x])
        else:
            x = pack_term(eng, "<", "B", 1, x)
        self.val = eng.binop("Add", self.val, x)

    def _extend(self, eng, a, k):
        self.val = eng.binop("Add", self.val, t_bytes(eng, [a[0]], {}))

    def _clear(self, eng, a, k):
        self.val = b""

    def v_binop(self, eng, op, o, rev):
        if isinstance(o, BArrV):
            o = o.val
        if op == "Add":
            return eng.binop(op, o, self.val) if rev else eng.binop(op, self.val, o)
        return NotImplemented

    def v_iaug(self, eng, op, o):
        if op == "Add":
            self.val = eng.binop("Add", self.val, t_bytes(eng, [o], {}))
            return self
        return NotImplemented

    def v_compare(self, eng, op, o, rev):
        return eng.compare(op, self.val, o.val if isinstance(o, BArrV) else o)

    def v_truth(self, eng):
        return eng.truth(self.val)

    def v_len(self, eng):
        return b_len(eng, [self.val], {})

    def v_getitem(self, eng, i):
        r = eng.getitem(self.val, i)
        return BArrV(r) if isinstance(i, slice) else r

    def v_iter(self, eng, cb):
        eng._iterate(self.val, cb)

    def v_isinstance(self, eng, cls):
        return isinstance(cls, type) and issubclass(bytearray, cls)

    def __repr__(self):
        return f"bytearray({self.val!r})"


def t_bytearray(eng, args, kw):
    if args and isinstance(args[0], int):
        return BArrV(bytes(args[0]))
    return BArrV(t_bytes(eng, args, kw))


def t_memoryview(eng, args, kw):
    v = args[0]
    return v.val if isinstance(v, BArrV) else v


def t_slice(eng, args, kw):
    return slice(*args)


def t_type(eng, args, kw):
    v = args[0]
    if isinstance(v, InstV):
        return v.cls
    if isinstance(v, ExcV):
        return v.cls
    if isinstance(v, Term):
        return Term("type", (v,))
    if isinstance(v, AbsVal):
        return {"list": list, "dict": dict, "set": set, "int": int}.get(v.kind, Term("type", (Term("sym", (v.kind,)),)))
    return type(v)


def t_property(eng, args, kw):
    return eng.persist(PropV(args[0]))


TYPES = {
    list: t_list,
    tuple: t_tuple,
    set: t_set,
    frozenset: t_frozenset,
    dict: t_dict,
    bool: t_bool,
    int: t_int,
    float: t_float,
    str: t_str,
    bytes: t_bytes,
    slice: t_slice,
    type: t_type,
    property: t_property,
    staticmethod: lambda e, a, k: StaticV(a[0]),
    classmethod: lambda e, a, k: ClassMethV(a[0]),
    object: lambda e, a, k: Term("object", (e.fresh_id(),), "true"),
    range: b_range,
    zip: b_zip,
    enumerate: b_enumerate,
    map: b_map,
    filter: b_filter,
    reversed: b_reversed,
    bytearray: t_bytearray,
    memoryview: t_memoryview,
    memoryview: lambda e, a, k: a[0],
}


# ------------------------------------------------------------------ libraries


def identity(eng, args, kw):
    return args[0]


def deco_identity(eng, args, kw):
    """A decorator, with or without options, that leaves the function as it is."""
    if len(args) == 1 and isinstance(args[0], (FuncV, ClassV, BoundV)):
        return args[0]
    return Builtin("decorator", lambda e, a, k: a[0])


class Memo(AbsVal):
    """A function that remembers its results (functools.cache)."""

    kind, binds = "function", True

    def __init__(self, eng, func, size, typed):
        self.func, self.size, self.typed = func, size, typed
        self.seen = eng.persist(DictV())  # key -> (arguments, result), in the order of their last use

    def key(self, eng, v):
        if isinstance(v, (ListV, DictV, SetV)):
            eng.throw(TypeError, f"unhashable type: '{type(v).__name__.lower()[:-1]}'")
        if isinstance(v, tuple):
            return ("tuple", tuple(self.key(eng, x) for x in v))
        if isinstance(v, AbsVal):
            if isinstance(v, InstV) and v.cls.lookup("__eq__") is not MISSING and v.cls.lookup("__hash__") in (MISSING, None):
                eng.throw(TypeError, f"unhashable type: '{v.cls.name}'")
            return ("abs", ckey(v))
        return ("same", type(v), v) if self.typed else ("same", v)

    def v_call(self, eng, args, kw):
        k = (tuple(self.key(eng, x) for x in args), tuple((n, self.key(eng, x)) for n, x in kw.items()))
        items = self.seen.items
        if k in items:
            hit = items.pop(k)
            items[k] = hit
            return hit[2]
        v = eng.call(self.func, list(args), kw)
        if self.size != 0:
            items[k] = (list(args), kw, v)
            if self.size is not None and len(items) > self.size:
                del items[next(iter(items))]
        return v

    def v_getattr(self, eng, name):
        if name == "__wrapped__":
            return self.func
        if name == "cache_clear":
            return Builtin(name, lambda e, a, k: self.seen.items.clear())
        if name == "cache_info":
            raise Undecided("cache_info()")
        return eng.getattr(self.func, name)

    def __repr__(self):
        return f"<cached {self.func!r}>"


def lru_cache(eng, args, kw):
    """functools.lru_cache, with or without options."""
    if args and isinstance(args[0], (FuncV, ClassV, BoundV, Builtin)):
        return Memo(eng, args[0], 128, False)
    size = args[0] if args else kw.get("maxsize", 128)
    typed = (args[1] if len(args) > 1 else kw.get("typed", False)) is True
    return Builtin("decorator", lambda e, a, k: Memo(e, a[0], size, typed))


def as_dataclass(eng, args, kw):
    def deco(e, a, k):
        c = a[0]
        c.fields = []
        for b in c.bases:
            if isinstance(b, ClassV) and b.fields:
                c.fields += b.fields
        for nm in c.attrs.get("__annotations_order__", []):
            d = c.attrs.get(nm, MISSING)
            if isinstance(d, (FuncV, PropV, StaticV)):
                d = MISSING
            c.fields.append((nm, d))
            if nm in c.attrs:
                del c.attrs[nm]
        c.readonly = bool(kw.get("readonly") or kw.get("frozen"))
        return c

    if args and isinstance(args[0], ClassV):
        return deco(eng, args, {})
    return Builtin("dataclass", deco)


def f_reduce(eng, args, kw):
    f, it = args[0], args[1]
    acc = [args[2]] if len(args) > 2 else []

    def cb(x):
        if not acc:
            acc.append(x)
        else:
            acc[0] = eng.call(f, [acc[0], x], {})

    eng.iterate(it, cb)
    if not acc:
        eng.throw(TypeError, "reduce of empty")
    return acc[0]


def contextmanager(eng, args, kw):
    return args[0]


def closing(eng, args, kw):
    o = args[0]

    def ex(e, a, k):
        e.call(e.getattr(o, "close"), [], {})
        return None

    return LibObj("closing", __enter__=lambda e, a, k: o, __exit__=ex)


def suppress(eng, args, kw):
    def ex(e, a, k):
        return a[0] is not None and exc_is(a[0], tuple(args))

    return LibObj("suppress", __enter__=lambda e, a, k: None, __exit__=ex)


def exit_stack(eng, args, kw):
    """Context manager that undoes what was registered, last first."""
    undo = []

    def enter_context(e, a, k):
        v = e.enter(a[0])
        undo.append(lambda e, exc, cm=a[0]: e.exit(cm, exc))
        return v

    def callback(e, a, k):
        undo.append(lambda e, exc: e.call(a[0], list(a[1:]), dict(k)) and False)
        return a[0]

    def push(e, a, k):
        def u(e, exc):
            if isinstance(a[0], (FuncV, BoundV, Builtin)):
                r = e.call(a[0], [None, None, None] if exc is None else [exc.cls, exc, None], {})
                return exc is not None and r is not None and e.truth(r)
            return e.exit(a[0], exc)

        undo.append(u)
        return a[0]

    def leave(e, exc):
        first = exc
        while undo:
            try:
                if undo.pop()(e, exc):
                    exc = None
            except PyExc as x:
                exc = x.val
                first = None
        if exc is not None and exc is not first:
            raise PyExc(exc)
        return first is not None and exc is None

    def pop_all(e, a, k):
        new = exit_stack(e, [], {})
        new.undo.extend(undo)
        undo.clear()
        return new

    o = LibObj(
        "ExitStack",
        __enter__=lambda e, a, k: o,
        __exit__=lambda e, a, k: leave(e, a[1]),
        enter_context=enter_context,
        callback=callback,
        push=push,
        close=lambda e, a, k: leave(e, None) and None,
        pop_all=pop_all,
    )
    o.undo = undo
    return o


def chain(eng, args, kw):
    def run(cb):
        for a in args:
            eng.iterate_raw(a, cb)

    return GenV(None, None, run)


def islice(eng, args, kw):
    it = args[0]
    a = args[1:]
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0] or 0, a[1], (a[2] if len(a) > 2 else 1) or 1

    def run(cb):
        n = [0]

        def f(x):
            i = n[0]
            n[0] += 1
            if hi is not None and eng.truth(eng.compare("GtE", i, hi)):
                raise StopConsume
            if eng.truth(eng.compare("GtE", i, lo)) and (st == 1 or (i - lo) % st == 0):
                cb(x)

        eng.iterate(it, f)

    return GenV(None, None, run)


def count(eng, args, kw):
    s = args[0] if args else 0

    def run(cb):
        i = s
        for _ in range(200):
            cb(i)
            i = eng.binop("Add", i, 1)
        raise Undecided("itertools.count")

    return GenV(None, None, run)


def partial(eng, args, kw):
    return Partial(args[0], args[1:], kw)


def re_call(name):
    def f(eng, args, kw):
        pat, *rest = args
        flags = kw.get("flags", 0)
        if name != "sub" and len(rest) > 1:
            flags = rest.pop()
        if name == "compile":
            if isinstance(pat, ReV):
                return pat
            if rest:
                flags = rest[0]
            if is_conc(pat):
                try:
                    return ReV(pat, flags)
                except _re.error as e:
                    eng.throw(ExtV("re.error"), str(e))
            return LibObj("regex", **{k: (lambda e, a, kk, k=k: re_call(k)(e, [pat, *a], kk)) for k in ("match", "search", "sub", "fullmatch", "findall")})
        if isinstance(pat, ReV):
            return re_method(eng, pat, name, rest, {})
        if is_conc(pat):
            return re_method(eng, ReV(pat, flags), name, rest, {})
        return Term("re:" + name, (pat, flags, *rest), "str" if name == "sub" else "obj", name != "sub")

    return f


def deque(eng, args, kw):
    return ListV(eng.to_list(args[0]) if args else ())


def defaultdict(eng, args, kw):
    d = DictV()
    d.default = args[0] if args else None
    return d


def op_call(op):
    return lambda e, a, k: e.binop(op, a[0], a[1])


def cmp_call(op):
    return lambda e, a, k: e.compare(op, a[0], a[1])


def itemgetter(eng, args, kw):
    keys = list(args)

    def g(e, a, k):
        r = tuple(e.getitem(a[0], i) for i in keys)
        return r[0] if len(keys) == 1 else r

    return Builtin("itemgetter", g)


def attrgetter(eng, args, kw):
    names = list(args)

    def g(e, a, k):
        def one(n):
            v = a[0]
            for p in n.split("."):
                v = e.getattr(v, p)
            return v

        r = tuple(one(n) for n in names)
        return r[0] if len(names) == 1 else r

    return Builtin("attrgetter", g)


def struct_fn(name):
    def f(eng, args, kw):
        s = StructV(args[0])
        return struct_method(eng, s, name, args[1:], kw)

    return f


def np_int(name):
    """Scalar of a fixed width: a value that fits is the same number."""
    digits = "".join(ch for ch in name if ch.isdigit())
    bits = int(digits) if digits else 64
    lo, hi = (0, 2**bits - 1) if name.startswith("u") else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)

    def f(eng, args, kw):
        v = args[0] if args else 0
        if isinstance(v, (bool, int)):
            if lo <= v <= hi:
                return int(v)
            raise Undecided(f"overflow of {name}")
        if to_aff(v) is not None or hasattr(v, "v_int"):
            if not eng.truth(eng.compare("LtE", v, hi)):
                raise Undecided(f"overflow of {name}")
            return v
        return Term("np:" + name, (v,), "int")

    return f


def base_calls(c):
    c["recordclass.as_dataclass"] = as_dataclass
    c["recordclass.dataobject"] = identity
    c["dataclasses.dataclass"] = as_dataclass
    c["typing_extensions.dataclass_transform"] = deco_identity
    c["typing.dataclass_transform"] = deco_identity
    c["functools.cache"] = lambda e, a, k: Memo(e, a[0], None, False)
    c["functools.lru_cache"] = lru_cache
    c["functools.wraps"] = lambda e, a, k: Builtin("wraps", lambda e2, a2, k2: a2[0])
    c["functools.cached_property"] = lambda e, a, k: e.persist(PropV(a[0], True))
    c["functools.reduce"] = f_reduce
    c["functools.partial"] = partial
    c["functools.total_ordering"] = identity
    c["contextlib.contextmanager"] = contextmanager
    c["contextlib.closing"] = closing
    c["contextlib.suppress"] = suppress
    c["contextlib.ExitStack"] = exit_stack
    c["contextlib.nullcontext"] = lambda e, a, k: LibObj(
        "nullcontext", __enter__=lambda e2, a2, k2: a[0] if a else None, __exit__=lambda e2, a2, k2: None
    )
    c["itertools.chain"] = chain
    c["itertools.chain.from_iterable"] = lambda e, a, k: chain(e, e.to_list(a[0]), {})
    c["itertools.islice"] = islice
    c["itertools.count"] = count
    c["itertools.zip_longest"] = lambda e, a, k: IterV(
        list(__import__("itertools").zip_longest(*[e.to_list(x) for x in a], fillvalue=k.get("fillvalue")))
    )
    c["itertools.takewhile"] = takewhile
    c["itertools.accumulate"] = accumulate
    c["itertools.repeat"] = lambda e, a, k: IterV([a[0]] * a[1]) if len(a) > 1 else Term("repeat", tuple(a))
    c["collections.deque"] = deque
    c["collections.defaultdict"] = defaultdict
    c["collections.OrderedDict"] = t_dict
    c["collections.Counter"] = counter
    c["copy.copy"] = copy_copy
    c["os.environ.get"] = lambda e, a, k: a[1] if len(a) > 1 else None
    c["os.getenv"] = lambda e, a, k: a[1] if len(a) > 1 else None
    c["warnings.warn"] = lambda e, a, k: None
    c["warnings.filterwarnings"] = lambda e, a, k: None
    for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "intp"):
        c["numpy." + n] = np_int(n)
    c["struct.Struct"] = lambda e, a, k: StructV(a[0])
    c["struct.unpack"] = struct_fn("unpack")
    c["struct.unpack_from"] = struct_fn("unpack_from")
    c["struct.pack"] = struct_fn("pack")
    c["struct.calcsize"] = lambda e, a, k: _struct.calcsize(a[0])
    c["typing.TypeVar"] = lambda e, a, k: ExtV("typing.Any")
    c["typing.cast"] = lambda e, a, k: a[1]
    for n in ("compile", "match", "search", "sub", "fullmatch", "findall", "split"):
        c["re." + n] = re_call(n)
    c["re.escape"] = lambda e, a, k: _re.escape(a[0]) if is_conc(a[0]) else Term("re.escape", tuple(a), "str")
    for n, o in (
        ("add", "Add"),
        ("sub", "Sub"),
        ("mul", "Mult"),
        ("and_", "BitAnd"),
        ("or_", "BitOr"),
        ("xor", "BitXor"),
        ("lshift", "LShift"),
        ("rshift", "RShift"),
        ("truediv", "Div"),
        ("floordiv", "FloorDiv"),
        ("mod", "Mod"),
    ):
        c["operator." + n] = op_call(o)
    for n, o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot")):
        c["operator." + n] = cmp_call(o)
    c["operator.not_"] = lambda e, a, k: not e.truth(a[0])
    c["operator.contains"] = lambda e, a, k: e.contains(a[0], a[1])
    c["operator.itemgetter"] = itemgetter
    c["operator.attrgetter"] = attrgetter
    c["operator.invert"] = lambda e, a, k: e.unop("Invert", a[0])
    c["pyarrow.compute.get_function"] = lambda e, a, k: ArrowFn(a[0])
    for n in ("njit", "jit", "vectorize"):
        c["numba." + n] = numba_identity
    c["numba.guvectorize"] = numba_guvectorize
    c["numba.np.ufunc.parallel._check_tbb_version_compatible"] = tbb_check
    c["posixpath.join"] = posix_join
    c["posixpath.basename"] = lambda e, a, k: e.call(e.getattr(a[0], "rpartition"), ["/"], {})[2]
    c["xml.sax.saxutils.escape"] = xml_escape
    c["xml.sax.saxutils.quoteattr"] = xml_quoteattr
    c["html.escape"] = html_escape
    c["posixpath.normpath"] = posix_norm


ARROW_ARITY = {"or": 2, "and": 2, "xor": 2, "and_kleene": 2, "or_kleene": 2, "array_take": 2, "take": 2, "filter": 2, "array_filter": 2, "equal": 2, "not_equal": 2, "if_else": 3}


class ArrowFn(AbsVal):
    """A function of the registry of pyarrow.compute, addressed by its name."""

    __slots__ = ("name",)
    kind = "ext"

    def __init__(self, name):
        self.name = name

    def v_getattr(self, eng, name):
        if name == "arity":
            return ARROW_ARITY.get(self.name, 1)
        if name in ("_doc", "name"):
            return (str(self.name), "") if name == "_doc" else self.name
        if name == "call":

            def call(e, a, k):
                xs = e.to_list(a[0])
                opts = a[1] if len(a) > 1 else k.get("options")
                return e.lib.call(e, f"arrow:{self.name}", [*xs, opts], {})

            return Builtin("call", call)
        return NotImplemented

    def __repr__(self):
        return f"<arrow function {self.name}>"


def numba_identity(eng, args, kw):
    """Compiled functions are analysed as the functions they are made of."""
    def mark(f):
        if isinstance(f, FuncV):
            f.attrs["__numba__"] = True
            if kw.get("boundscheck") is not True:
                eng.unchecked.add(f.qualname)
        return f

    if args and isinstance(args[0], (FuncV, BoundV, Builtin)):
        return mark(args[0])
    return Builtin("njit", lambda e, a, k: mark(a[0]))


class OutV(AbsVal):
    """The output argument of a generalised ufunc; an assignment of all of it is its result."""

    __slots__ = ("val",)

    def __init__(self):
        self.val = MISSING

    def v_setitem(self, eng, i, v):
        full = isinstance(i, slice) and i.start is None and i.stop is None and i.step in (None, 1)
        if not full and i is not Ellipsis:
            raise Undecided("partial output of a generalised ufunc")
        self.val = v
        return None

    def v_getitem(self, eng, i):
        if self.val is MISSING:
            raise Undecided("read of an unwritten output")
        return self.val


def numba_guvectorize(eng, args, kw):
    def deco(e, a, k):
        fn = a[0]

        def run(e2, a2, k2):
            out = OutV()
            e2.call(fn, [*a2, out], {})
            if out.val is MISSING:
                raise Undecided("unwritten output of a generalised ufunc")
            return out.val

        return Builtin("gufunc", run)

    if args and isinstance(args[0], FuncV):
        return deco(eng, args, kw)
    return Builtin("guvectorize", deco)


def tbb_check(eng, args, kw):
    if not getattr(eng, "tbb", True):
        eng.throw(ImportError, "tbb")


def takewhile(eng, args, kw):
    f, it = args

    def run(cb):
        def g(x):
            if not eng.truth(eng.call(f, [x], {})):
                raise StopConsume
            cb(x)

        eng.iterate(it, g)

    return GenV(None, None, run)


def accumulate(eng, args, kw):
    def run(cb):
        acc = []
        f = args[1] if len(args) > 1 else kw.get("func")
        if "initial" in kw:
            acc.append(kw["initial"])
            cb(acc[0])

        def g(x):
            if not acc:
                acc.append(x)
            else:
                acc[0] = eng.binop("Add", acc[0], x) if f is None else eng.call(f, [acc[0], x], {})
            cb(acc[0])

        eng.iterate_raw(args[0], g)

    return GenV(None, None, run)


def counter(eng, args, kw):
    d = DictV()
    d.default = Builtin("int", lambda e, a, k: 0)
    for x in eng.to_list(args[0]) if args else ():
        eng.dict_set(d, x, eng.binop("Add", eng.getitem(d, x), 1))
    return d


def copy_copy(eng, args, kw):
    v = args[0]
    if isinstance(v, ListV):
        return ListV(v.items)
    if isinstance(v, DictV):
        return DictV(list(v.items.values()))
    if isinstance(v, SetV):
        return SetV(v.items.values())
    if isinstance(v, InstV):
        return InstV(v.cls, dict(v.attrs))
    return v


def posix_join(eng, args, kw):
    if all(is_conc(a) for a in args):
        import posixpath

        return posixpath.join(*args)
    return Term("path.join", tuple(args), "str")


def posix_norm(eng, args, kw):
    if is_conc(args[0]):
        import posixpath

        return posixpath.normpath(args[0])
    return Term("path.norm", tuple(args), "str")

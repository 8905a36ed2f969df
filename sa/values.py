"""Abstract values of the analyser: interned terms, affine integers, heap objects."""
from __future__ import annotations

from fractions import Fraction


class AbsVal:
    """Base of every abstract value that is not a plain Python constant."""

    __slots__ = ()
    kind = "obj"

    # protocol hooks; NotImplemented means: the engine's generic behaviour
    def v_getattr(self, eng, name):
        return NotImplemented

    def v_setattr(self, eng, name, value):
        return NotImplemented

    def v_call(self, eng, args, kwargs):
        return NotImplemented

    def v_iter(self, eng, cb):
        return NotImplemented

    def v_truth(self, eng):
        return NotImplemented

    def v_len(self, eng):
        return NotImplemented

    def v_contains(self, eng, x):
        return NotImplemented

    def v_getitem(self, eng, i):
        return NotImplemented

    def v_setitem(self, eng, i, value):
        return NotImplemented

    def v_binop(self, eng, op, other, rev):
        return NotImplemented

    def v_unop(self, eng, op):
        return NotImplemented

    def v_compare(self, eng, op, other, rev):
        return NotImplemented

    def v_isinstance(self, eng, cls):
        return NotImplemented


def ckey(v):
    """Structural key of a value that is used inside terms (types of constants are kept apart)."""
    if isinstance(v, Term):
        return v
    if isinstance(v, Aff):
        return v
    if isinstance(v, tuple):
        return ("tuple", tuple(ckey(x) for x in v))
    if isinstance(v, (int, float, str, bytes, bool, type(None), complex)):
        return (type(v).__name__, repr(v) if isinstance(v, float) else v)
    if isinstance(v, frozenset):
        return ("frozenset", frozenset(ckey(x) for x in v))
    if isinstance(v, slice):
        return ("slice", ckey(v.start), ckey(v.stop), ckey(v.step))
    f = getattr(v, "v_key", None)
    if f is not None:
        return f()
    return ("id", id(v), type(v).__name__)


class Term(AbsVal):
    """An opaque, immutable, interned value: operator and arguments."""

    __slots__ = ("_h", "args", "kind", "op", "maybe_none")
    _table: dict = {}

    def __new__(cls, op, args=(), kind="obj", maybe_none=False):
        key = (op, tuple(ckey(a) for a in args))
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.kind, t.maybe_none = op, tuple(args), kind, maybe_none
            t._h = hash(key)
            cls._table[key] = t
            # args that are keyed by identity must stay alive together with the table
        elif t.kind == "obj" and kind != "obj":
            t.kind = kind
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self.op == "sym":
            return str(self.args[0])
        if self.op == "attr":
            return f"{self.args[0]!r}.{self.args[1]}"
        return f"{self.op}({', '.join(map(short, self.args))})"


def short(v, n=60):
    s = repr(v)
    return s if len(s) <= n else s[: n - 3] + "..."


def sym(name, kind="obj", maybe_none=False):
    return Term("sym", (name,), kind, maybe_none)


class Aff(AbsVal):
    """Affine integer expression over int-kinded terms."""

    __slots__ = ("_h", "c", "k")
    kind = "int"

    def __init__(self, c, k):
        self.c = {t: v for t, v in c.items() if v}
        self.k = k
        self._h = hash((frozenset(self.c.items()), k))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Aff) and self.c == o.c and self.k == o.k

    def __repr__(self):
        out = ""
        for t, v in sorted(self.c.items(), key=lambda x: repr(x[0])):
            s = "+" if v > 0 else "-"
            a = abs(v)
            out += f"{s}{'' if a == 1 else str(a) + '*'}{t!r}"
        if self.k or not out:
            out += f"{'+' if self.k >= 0 else ''}{self.k}"
        return "(" + out.lstrip("+") + ")"


def to_aff(v):
    if isinstance(v, bool):
        return Aff({}, int(v))
    if isinstance(v, (int, Fraction)):
        return Aff({}, v)
    if isinstance(v, Aff):
        return v
    if isinstance(v, Term):
        return Aff({v: 1}, 0) if v.kind == "int" else None
    f = getattr(v, "v_aff", None)
    return f() if f is not None else None


def norm_aff(a):
    """Affine expression back to the simplest value."""
    if not a.c:
        return int(a.k) if isinstance(a.k, Fraction) and a.k.denominator == 1 else a.k
    if a.k == 0 and len(a.c) == 1:
        (t, v), = a.c.items()
        if v == 1:
            return t
    return a


def aff_add(a, b, s=1):
    c = dict(a.c)
    for t, v in b.c.items():
        c[t] = c.get(t, 0) + s * v
    return Aff(c, a.k + s * b.k)


def aff_scale(a, n):
    return Aff({t: v * n for t, v in a.c.items()}, a.k * n)


def add(a, b):
    return norm_aff(aff_add(to_aff(a), to_aff(b)))


def sub(a, b):
    return norm_aff(aff_add(to_aff(a), to_aff(b), -1))


# ---------------------------------------------------------------- heap objects


class HeapObj(AbsVal):
    __slots__ = ("loc",)


class ListV(HeapObj):
    __slots__ = ("items",)
    kind = "list"

    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return "[" + ", ".join(map(short, self.items)) + "]"


class SetV(HeapObj):
    __slots__ = ("items",)
    kind = "set"

    def __init__(self, items=()):
        self.items = {}
        for x in items:
            self.items[ckey(x)] = x

    def __repr__(self):
        return "{" + ", ".join(map(short, self.items.values())) + "}"


class DictV(HeapObj):
    __slots__ = ("items", "default")
    kind = "dict"

    def __init__(self, items=()):
        self.items = {}
        self.default = None
        for k, v in items:
            self.items[ckey(k)] = (k, v)

    def __repr__(self):
        return "{" + ", ".join(f"{short(k)}: {short(v)}" for k, v in self.items.values()) + "}"


class AttrItems:
    """The items of an object's ``__dict__``: a live view of its attributes."""

    def __init__(self, attrs):
        self.a = attrs

    @staticmethod
    def name(ck):
        if not (isinstance(ck, tuple) and ck[0] == "str"):
            raise KeyError(ck)
        return ck[1]

    def __getitem__(self, ck):
        n = self.name(ck)
        return n, self.a[n]

    def __setitem__(self, ck, kv):
        self.a[self.name(ck)] = kv[1]

    def __delitem__(self, ck):
        del self.a[self.name(ck)]

    def __contains__(self, ck):
        return ck[1] in self.a if isinstance(ck, tuple) and ck[0] == "str" else False

    def get(self, ck, d=None):
        return self[ck] if ck in self else d

    def pop(self, ck, *d):
        if ck not in self:
            if d:
                return d[0]
            raise KeyError(ck)
        n = self.name(ck)
        return n, self.a.pop(n)

    def clear(self):
        self.a.clear()

    def __iter__(self):
        return iter([("str", n) for n in self.a])

    keys = __iter__

    def __len__(self):
        return len(self.a)

    def values(self):
        return [(n, v) for n, v in self.a.items()]

    def items(self):
        return [(("str", n), (n, v)) for n, v in self.a.items()]

    def update(self, o):
        for ck, kv in o.items():
            self[ck] = kv


class ClassV(HeapObj):
    __slots__ = ("attrs", "bases", "fields", "module", "name", "qualname", "readonly", "env", "node")
    kind = "class"

    def __init__(self, name, qualname, module, bases):
        self.name, self.qualname, self.module, self.bases = name, qualname, module, bases
        self.attrs = {}
        self.fields = None
        self.readonly = False

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(name)
                if r is not MISSING:
                    return r
        return MISSING

    def __repr__(self):
        return f"<class {self.qualname}>"


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class InstV(HeapObj):
    __slots__ = ("attrs", "cls")

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs or {}

    def __repr__(self):
        return f"<{self.cls.name} {', '.join(f'{k}={short(v, 30)}' for k, v in self.attrs.items())}>"


class FuncV(HeapObj):
    __slots__ = ("attrs", "cls", "defaults", "env", "info", "kwdefaults", "module", "name", "node", "qualname")
    kind = "function"

    def __repr__(self):
        return f"<function {self.qualname}>"


class BoundV(AbsVal):
    __slots__ = ("func", "obj")
    kind = "function"

    def __init__(self, obj, func):
        self.obj, self.func = obj, func

    def __repr__(self):
        return f"<bound {self.func!r} of {short(self.obj)}>"


class MethV(AbsVal):
    """A library method taken from an object (``obj.name`` before its call)."""

    __slots__ = ("name", "obj")
    kind = "function"

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"{short(self.obj)}.{self.name}"

    def __eq__(self, o):
        return isinstance(o, MethV) and o.obj is self.obj and o.name == self.name

    def __hash__(self):
        return hash((id(self.obj), self.name))


class ModV(HeapObj):
    __slots__ = ("env", "file", "name")
    kind = "module"

    def __repr__(self):
        return f"<module {self.name}>"


class ExtV(AbsVal):
    """A name of a library outside the analysed repository."""

    __slots__ = ("name",)
    kind = "ext"
    _t: dict = {}

    def __new__(cls, name):
        v = cls._t.get(name)
        if v is None:
            v = object.__new__(cls)
            v.name = name
            cls._t[name] = v
        return v

    def __repr__(self):
        return self.name


class Builtin(AbsVal):
    """A builtin function modelled by the engine."""

    __slots__ = ("fn", "name")
    kind = "function"

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def v_call(self, eng, args, kwargs):
        return self.fn(eng, args, kwargs)

    def __repr__(self):
        return f"<builtin {self.name}>"


class ExcV(HeapObj):
    """An exception object. ``cls`` is a Python exception class, an ExtV or a ClassV."""

    __slots__ = ("args", "attrs", "cls", "where")
    kind = "exception"

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)
        self.attrs = {}
        self.where = None

    def __repr__(self):
        n = self.cls.__name__ if isinstance(self.cls, type) else repr(self.cls)
        return f"{n}({', '.join(map(short, self.args))})"


class GenV(HeapObj):
    __slots__ = ("args", "env", "func", "lazy", "run", "used")
    kind = "generator"

    def __init__(self, func, env, run=None):
        self.func, self.env, self.run = func, env, run
        self.used = False
        self.lazy = None

    def __repr__(self):
        return f"<generator {self.func!r}>"


class IterV(HeapObj):
    """Iterator over known items."""

    __slots__ = ("items", "pos")
    kind = "iterator"

    def __init__(self, items):
        self.items, self.pos = items, 0

    def __repr__(self):
        return f"<iterator {self.pos}/{len(self.items)}>"


class PropV(HeapObj):
    __slots__ = ("cached", "func", "setter")

    def __init__(self, func, cached=False):
        self.func, self.cached = func, cached
        self.setter = None


class StaticV(HeapObj):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassMethV(HeapObj):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class RangeV(AbsVal):
    __slots__ = ("start", "step", "stop")
    kind = "range"

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def is_conc(v):
    if isinstance(v, AbsVal):
        return False
    if isinstance(v, (tuple, frozenset)):
        return all(is_conc(x) for x in v)
    if isinstance(v, slice):
        return is_conc(v.start) and is_conc(v.stop) and is_conc(v.step)
    return True

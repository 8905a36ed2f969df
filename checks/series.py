"""C15, C16, C20, C21, C23, C24: columns built of cells and read through windows."""
from __future__ import annotations

import itertools
import re
import struct
import zlib

from sa.engine import exc_is
from sa.lib import b_len
from sa.report import Report

from .biff import bounds, explore
from .columns import *  # noqa: F403
from .columns import CHUNK, MODES, SERIES, A, Arr, F, FSym, N, Num, PaArr, PaT, ListV, W, agree, build, code, double, show
from .common import PyExc, Undecided, Violation
from .numbers import instant, rk_value
from .readers import consts

XLSX, XLSB = "xlsx", "xlsb"
KINDS = {XLSX: ("number", "date", "shared", "text"), XLSB: ("number", "rk", "bool", "date", "rkdate", "shared", "text")}
FMT = ("%d_%m_%Y", "%Y|%m|%d")  # none of them is a format of the package
DEFAULT = "%Y-%m-%d"
SETTINGS = ("no", "temporal", "numeric", "all")
DAY = 86_400_000
FIRST, LAST = -62_135_596_800_000, 253_402_300_799_999


class Cell:
    """What a cell of the file stands for."""

    def __init__(self, row, kind):
        self.row, self.kind = row, kind
        self.num = self.text = self.as_number = None
        self.dates = {}

    @property
    def group(self):
        return {"text": "text", "shared": "text", "date": "date", "rkdate": "date"}.get(self.kind, "number")

    @property
    def ms(self):
        return self.num

    def __repr__(self):
        return f"{self.kind} of row {self.row}"


def instant_of(eng, x):
    """Milliseconds of a serial (None: negative, it has no meaning)."""
    x = Num({}, F(x)) if isinstance(x, float) else N.num(x)
    if not N.decide_ge(eng, x):
        return None
    z = 2 if N.decide_ge(eng, N.sub(x, Num({}, 60))) else (1 if N.decide_ge(eng, N.sub(x, Num({}, 1))) else 0)
    return N.nearest(eng, instant(x, z))


def some_number(eng, name, how):
    """A number of a family: whole, small, fraction or any serial."""
    if how == "serial":
        return N.of(FSym(eng, name, 61, 2_958_465))
    if how == "fraction":
        return N.of(FSym(eng, name, F(1, 1000), F(49, 100)))
    if how == "day":
        return N.of(FSym(eng, name, 61, 2_958_465, integral=True))
    return N.of(FSym(eng, name, 1 if how == "positive" else -1000, 1000, integral=True))


class Column:
    """A series being built, with the cells it holds."""

    def __init__(self, eng, fmt, specs, setting="no", formats=None, numbers="whole", extra=2, precision=None):
        self.eng, self.fmt, self.setting, self.formats, self.numbers = eng, fmt, setting, formats, numbers
        self.cells = {}
        self.last = -1
        self.n = 0
        self.K = consts(eng)
        # the table of strings: texts in reverse order of their use, with some that nobody uses
        kinds = [k for _, k in specs]
        shared = [i for i, k in enumerate(kinds) if k.startswith("shared")]
        self.items = [self.new_text(f"item {i}", kinds[i]) for i in reversed(shared)] + [self.new_text(f"unused item {i}", "text") for i in range(extra)]
        self.index = {i: len(shared) - 1 - n for n, i in enumerate(shared)}
        table = PaArr(PaT("large_string"), [t for t, _, _ in self.items])
        kw = {"conflict_resolve": setting, "datetime_formats": formats}
        if precision is not None:
            kw["float_precision"] = precision
        self.series = eng.call(eng.anchor("rxls.series", "xl_series"), [table, fmt == XLSB], kw)
        self.make = eng.anchor("rxls.cell", "cell")
        self.specs = specs

    def new_text(self, name, kind):
        """A text with the number and the dates it denotes."""
        eng = self.eng
        t = sym(name, "str")
        flavour = kind.partition(":")[2]
        num, dates = None, {}
        if "n" in flavour:
            num = some_number(eng, f"number of {name}", "serial" if self.numbers == "serial" else "whole")
            eng.path.data.setdefault("numbers", {})[ckey(t)] = num
        for ch in flavour:
            if ch in "01D":
                f = DEFAULT if ch == "D" else FMT[int(ch)]
                dates[f] = N.of(FSym(eng, f"instant of {name} as {f}", FIRST, LAST, integral=True))
        eng.path.data.setdefault("dates", {})[ckey(t)] = dict(dates)
        return t, num, dates

    def add(self, upto=None):
        """Add the next cells."""
        for row, kind in self.specs[self.n : upto]:
            self.add_one(row, kind)

    def add_one(self, row, kind):
        eng, i = self.eng, self.n
        self.n += 1
        base = kind.partition(":")[0]
        c = Cell(row, base)
        K = self.K
        xlsb = self.fmt == XLSB
        if base in ("number", "date"):
            c.num = some_number(eng, f"value {i}", "serial" if base == "date" else self.numbers)
            if xlsb:
                val = double(eng, f"double {i}", c.num)
                x = K["real"] if base == "number" else K["date"]
            else:
                t = sym(f"number text {i}", "str")
                eng.path.data.setdefault("numbers", {})[ckey(t)] = c.num
                c.text = t
                val = Term("encode", (t, "utf-8"), "bytes")
                x = K[base]
        elif base in ("rk", "rkdate"):
            x = K[base]
            if ":" in kind:
                s = BitSym(eng, f"code {i}", 32)
                s.known[0], s.known[1] = 0, 1  # a whole number; the others are up to C29
                s.facts()
                val, c.num = code(s), rk_value(s)
            else:
                n = i * 3 + (100 if base == "rkdate" else 0)
                val, c.num = struct.pack("<I", n << 2 | 2), float(n)
        elif base == "bool":
            c.num = float(i % 2)
            val, x = (b"\x01" if i % 2 else b"\x00"), K["bool"]
        elif base == "shared":
            j = self.index[i]
            val = struct.pack("<I", j) if xlsb else str(j).encode()
            c.text, c.as_number, c.dates = self.items[j]
            x = K["shared"]
        else:
            c.text, c.as_number, c.dates = self.new_text(f"text {i}", kind)
            val = c.text if xlsb else Term("encode", (c.text, "utf-8"), "bytes")
            x = K["text"]
        cell = eng.call(self.make, [row, 3, x, val], {})
        try:
            eng.call(eng.getattr(self.series, "add"), [cell], {})
        except PyExc as e:
            raise Violation(f"adding a {kind} of row {row} to {self}: {e.val!r}", e.val.where) from None
        if row not in self.cells:
            self.cells[row] = c
        self.last = max(self.last, row)

    def __repr__(self):
        return f"a column of {self.fmt} with {', '.join(f'{k} of row {r}' for r, k in self.specs)} ({self.setting})"

    # ------------------------------------------------------------ reading

    def positions(self, offset, length, mask):
        if mask is not None:
            return [offset + i for i, b in enumerate(mask) if b]
        if length:
            return list(range(offset, offset + length))
        return list(range(offset, self.last + 1))

    def read(self, mode="arrow", offset=0, length=0, mask=None):
        eng = self.eng
        kw = {} if mask is None else {"idx": PaArr(PaT("bool"), list(mask))}
        a = [] if not offset and not length else [offset, length]
        return A.as_pa(eng, eng.call(eng.getattr(self.series, f"to_{mode}"), a, kw))

    def check(self, mode="arrow", offset=0, length=0, mask=None, what=None):
        win = "whole" if not offset and not length and mask is None else f"from {offset}, length {length}" + ("" if mask is None else f", mask {''.join('01'[b] for b in mask)}")
        what = f"{what + ': ' if what else ''}{self} read as {'text' if mode == 'utf8' else 'data'}, {win}"
        try:
            r = self.read(mode, offset, length, mask)
        except PyExc as e:
            raise Violation(f"{what}: {e.val!r}", e.val.where) from None
        self.compare(r, self.positions(offset, length, mask), mode, what)

    def compare(self, r, pos, mode, what):
        eng = self.eng
        want = [self.cells.get(p) for p in pos]
        if len(r) != len(want):
            raise Violation(f"{what}: {len(r)} values come out where {len(want)} positions are requested")
        got = r.items(eng)
        for p, g, c in zip(pos, got, want):
            if (g is None) != (c is None):
                raise Violation(f"{what}: row {p} is {show(g)} where " + ("no value was added" if c is None else f"{c!r} was added"))
        forms = self.forms(want)
        t = r.t.n
        if not any(want):
            return
        if mode == "utf8":
            if not A.is_text(r.t):
                raise Violation(f"{what}: the texts are of type {t}")
        else:
            form = {"double": "number", "int64": "number", "timestamp[ms]": "date"}.get(t, "text" if A.is_text(r.t) else None)
            if form not in forms:
                raise Violation(f"{what}: the column of {self.kinds(want)} comes out as {t} and not as {' or '.join(sorted(forms))}")
            forms = {form}
        bad = None
        for form in sorted(forms):
            try:
                for p, g, c in zip(pos, got, want):
                    if c is not None:
                        self.element(g, c, form, mode == "utf8", t, f"{what}: row {p}")
                return
            except Violation as e:
                bad = e
        raise bad

    @staticmethod
    def kinds(want):
        return ", ".join(dict.fromkeys(c.kind for c in want if c))

    def matches(self, c):
        """Instant of a text in the first format that it matches."""
        fs = self.formats
        if isinstance(fs, tuple) and fs:
            return next((c.dates[f] for f in fs if f in c.dates), None)
        return c.dates.get(DEFAULT)

    def forms(self, want):
        """Forms in which a column of these cells may come out."""
        there = [c for c in want if c]
        has = {c.group for c in there}
        if not there:
            return {"null"}
        if len(has) == 1:
            return has
        S = self.setting
        texts = [c for c in there if c.group == "text"]
        if "date" in has:
            if S not in ("temporal", "all"):
                return {"text"}
            dated = [self.matches(c) is not None for c in texts]
            numbered = [S == "all" and c.as_number is not None for c in texts]
            if all(dated):
                return {"date"}
            if not all(a or b for a, b in zip(dated, numbered)):
                return {"text"}
            runs, prev = [], None
            for c in want:
                if c is not None and c.group == "text":
                    if prev is None or prev.kind != c.kind:
                        runs.append([])
                    runs[-1].append(c)
                prev = c
            if all(all(self.matches(c) is not None for c in run) or all(c.as_number is not None for c in run) for run in runs):
                return {"date"}
            return {"date", "text"}
        if S in ("numeric", "all") and all(c.as_number is not None for c in texts):
            return {"number"}
        return {"text"}

    def shown(self, g, label, what):
        """The value a text shows, and the type it was shown from; a whole number known here is its own digits."""
        if isinstance(g, str) and re.fullmatch(r"0|-?[1-9][0-9]*", g):
            return int(g), "int64"
        if not (isinstance(g, Term) and g.op == "shown"):
            raise Violation(f"{what} is {show(g)} where {label} has to be shown as text")
        return g.args

    def element(self, g, c, form, as_text, t, what):
        """A value shown is the value of its cell."""
        eng = self.eng
        if form == "text":
            if c.group == "text":
                if not same_text(eng, g, c.text):
                    raise Violation(f"{what} is {show(g)} instead of the text of the cell")
                return
            if c.group == "number" and c.text is not None and same_text(eng, g, c.text):
                return
            v, ty = self.shown(g, f"a {c.kind}", what)
            if (c.group == "date") != (ty == "timestamp[ms]") or ty not in ("double", "int64", "timestamp[ms]"):
                raise Violation(f"{what}: a {c.kind} is shown as a text of {ty}")
            x = instant_of(eng, c.num) if c.group == "date" else c.num
            if x is not None:
                agree(eng, v, x, f"{what}, the text")
            return
        if as_text:
            g, t = self.shown(g, f"a {form}", what)
            if (form == "date") != (t == "timestamp[ms]") or t not in ("double", "int64", "timestamp[ms]"):
                raise Violation(f"{what}: a {form} is shown as a text of {t}")
        if form == "number":
            x = c.num if c.group == "number" else c.as_number
            agree(eng, A.as_num(eng, g, "i8" if t == "int64" else "f8"), x, what)
            return
        cands = []
        if c.group == "text":
            m = self.matches(c)
            if m is not None:
                cands.append(m)
            if c.as_number is not None and self.setting == "all":
                cands.append(instant_of(eng, c.as_number))
        else:
            cands.append(instant_of(eng, c.num))
        g = A.as_num(eng, g, "i8")
        if None in cands:
            return
        for i, x in enumerate(cands):
            try:
                agree(eng, g, x, what)
                return
            except Violation:
                if i == len(cands) - 1:
                    raise


def same_text(eng, a, b):
    return a is b or (isinstance(a, Term) and ckey(a) == ckey(b)) or (isinstance(a, str) and a == b)


# --------------------------------------------------------------------- C15


def place_run(fmt, specs, setting, rep, looks=()):
    def run(eng):
        col = Column(eng, fmt, specs, setting)
        n = b_len(eng, [col.series], {})
        if n != 0:
            raise Violation(f"a column without cells has the length {n!r}")
        for i in range(len(specs)):
            col.add(i + 1)
            n = b_len(eng, [col.series], {})
            if n != col.last + 1:
                raise Violation(f"the length of {col} is {n!r} after row {col.last}")
            if looks:
                # the cells so far are read before the next one comes
                col.check(looks[i % len(looks)])
        col.check()
        col.check("utf8")
        rep.ok("place", len(specs))

    return run


def layouts(fmt, tier):
    """Sequences of cells: (row, kind), with gaps, repeated rows and changes of kind."""
    ks = KINDS[fmt]
    yield []
    for first in (0, 1, 2, 5):
        for k in ks:
            yield [(first, k)]
            for step in (0, 1, 2, 4):
                for k2 in ks:
                    yield [(first, k), (first + step, k2)]
    three = ks if tier != "quick" else (("number", "date", "shared", "text") if fmt == XLSX else ("number", "rk", "date", "shared"))
    for first in (0, 2):
        for s, t in itertools.product((0, 1, 3), repeat=2):
            for kk in itertools.product(three, repeat=3):
                yield [(first, kk[0]), (first + s, kk[1]), (first + s + t, kk[2])]
    two = ks[:2] if tier == "quick" else ks[:3]
    for rows in ((0, 1, 2, 3), (1, 2, 4, 5), (0, 0, 1, 1), (0, 1, 1, 3), (3, 3, 4, 9), (0, 300, 301, 600)):
        for kk in itertools.product((*two, "shared"), repeat=4):
            yield list(zip(rows, kk))


def hash_of(specs):
    return zlib.crc32(repr(specs).encode())


def build_series(repo, un, tbb):
    return build(repo, un, tbb, SERIES)


def c15(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un, tbb in MODES[:1] if tier == "quick" else MODES:
        eng = build_series(repo, un, tbb)
        for fmt in KINDS:
            for specs in layouts(fmt, tier):
                explore(eng, rep, place_run(fmt, specs, "no", rep), "place", f"{label} build, {fmt}, {specs}")
                if len(specs) > 1 and (len(specs) < 4 or tier != "quick") and (tier != "quick" or hash_of(specs) % 4 == 0):
                    for looks in (("utf8",), ("arrow",)):
                        explore(eng, rep, place_run(fmt, specs, "no", rep, looks), "place", f"{label} build, {fmt}, {specs}, read in between")
    return rep.finish(
        "the series is interpreted on sequences of up to four cells of every kind of both formats, at rows that follow each "
        "other, leave gaps or repeat, with symbolic values; after each the length is compared, and at the end every position "
        "of the column (read as data and as text) with the first cell of its row.",
        minimum=3000,
    )


# --------------------------------------------------------------------- C16


def shapes(fmt):
    """Columns by the layout of their parts."""
    n = "number"
    b = ("rk" if fmt == XLSB else "date")
    out = [
        [],
        [(0, n)],
        [(2, n)],
        [(i, "text") for i in range(4)],
        [(i, "shared") for i in range(4)],
        [(i, n) for i in range(4)],
        [(i, b) for i in range(4)],
        [(0, n), (1, n), (4, n)],
        [(2, "text"), (3, n), (4, n)],
        [(0, n), (1, "shared"), (2, b), (4, "text")],
        [(1, "shared"), (3, "shared")],
        [(0, "date"), (1, "date"), (2, n), (5, n)],
        [(1, n), (1, "text"), (2, b)],
    ]
    if fmt == XLSB:
        out += [[(0, "bool"), (1, "bool"), (2, "rkdate"), (3, "rkdate")], [(1, "rk"), (2, "number"), (3, "bool")]]
    return out


def windows(last, tier):
    for off in range(last + 4):
        for n in range(last + 5 - (off if tier == "quick" else 0)):
            yield off, n, None


def masks(last, tier):
    for off in sorted({0, 1, 2, max(last, 0), last + 2}):
        for n in sorted({0, max(last + 1 - off, 0), max(last + 1 - off, 0) + 2, max(last - off, 0)}):
            if n > (5 if tier == "quick" else 7):
                continue
            for m in itertools.product((False, True), repeat=n):
                for length in (0, n) if off < 2 else (n,):
                    yield off, length, m


def window_run(fmt, specs, setting, mode, off, n, m, rep):
    def run(eng):
        col = Column(eng, fmt, specs, setting)
        col.add()
        col.check(mode, off, n, m)
        rep.ok("window")

    return run


def c16(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un, tbb in MODES[:1] if tier == "quick" else MODES:
        eng = build_series(repo, un, tbb)
        for fmt in KINDS:
            for specs in shapes(fmt):
                last = max([r for r, _ in specs], default=-1)
                for mode in ("arrow", "utf8"):
                    for off, n, m in windows(last, tier):
                        explore(eng, rep, window_run(fmt, specs, "no", mode, off, n, m, rep), "window", f"{label} build, {fmt}, {specs}, {mode}, {off}, {n}")
                    if specs and (mode == "arrow" or tier != "quick"):
                        for off, n, m in masks(last, tier):
                            explore(eng, rep, window_run(fmt, specs, "no", mode, off, n, m, rep), "window", f"{label} build, {fmt}, {specs}, {mode}, {off}, {n}, {m}")
    return rep.finish(
        "columns of both formats with every layout of parts (single, several, nulls at the beginning, between and missing at "
        "the end) and symbolic values are interpreted and read through every offset and length up to beyond their end, and "
        "through every mask of the rows from an offset on; each position of the window is compared with the cell of its row.",
        minimum=4000,
    )


# --------------------------------------------------------------------- C20


def conflict_run(fmt, specs, setting, formats, numbers, windows_, rep):
    def run(eng):
        col = Column(eng, fmt, specs, setting, formats, numbers)
        col.add()
        for w in windows_:
            col.check(*w)
        rep.ok("conflict")

    return run


POOL = {
    XLSX: ("number", "date", "text", "text:n", "text:0", "text:n0", "shared", "shared:0", "shared:n"),
    XLSB: ("number", "rk", "bool", "date", "rkdate", "text", "text:n", "text:0", "shared:0", "shared:n"),
}
FORMATS = (FMT[:1], FMT)


def rows_of(kinds, gap=None):
    """Cells at the rows 0, 1, ... with a gap before one of them."""
    out, r = [], 0
    for i, k in enumerate(kinds):
        if i == gap:
            r += 1
        out.append((r, k))
        r += 1
    return out


def conflicts(fmt, tier):
    """(cells, formats, family of numbers, windows)"""
    ps = POOL[fmt]
    whole = [()]
    for a, b in itertools.product(ps, repeat=2):
        for fs in FORMATS:
            yield rows_of((a, b)), fs, "whole", [(), ("utf8",)]
        yield rows_of((a, a, b), 2), FORMATS[0], "serial", whole
    small = ps if tier != "quick" else tuple(p for p in ps if p not in ("shared", "bool", "rkdate", "text:n0" if fmt == XLSB else "shared:n"))
    for kk in itertools.product(small, repeat=3):
        yield rows_of(kk), FORMATS[0], "whole", whole
    for kk in itertools.product(("number", "date", "text:0", "text:1", "text:01", "text:n1"), repeat=3):
        yield rows_of(kk, 1), FMT, "whole", whole
    # the formats of the package
    for kk in itertools.product(("date", "text:D", "text", "text:nD", "shared:D"), repeat=2):
        for fs in (None, ()):
            yield rows_of(kk), fs, "whole", whole
    # fractions
    for kk in itertools.product(("number", "date", "text:n", "text:0"), repeat=2):
        yield rows_of(kk), FMT, "fraction", whole
    # only a part of the column is asked for
    for kk in itertools.product(("number", "date", "text:n", "text:0", "text"), repeat=3):
        yield rows_of(kk), FMT[:1], "whole", [("arrow", 1, 0), ("arrow", 0, 2), ("arrow", 0, 3, (True, False, True)), ("utf8", 1, 2)]


def c20(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un, tbb in MODES[:1] if tier == "quick" else MODES:
        eng = build_series(repo, un, tbb)
        for fmt in KINDS:
            for specs, formats, numbers, ws in conflicts(fmt, tier):
                for setting in SETTINGS:
                    explore(eng, rep, conflict_run(fmt, specs, setting, formats, numbers, ws, rep), "conflict", f"{label} build, {fmt}, {setting}, {formats}, {specs}")
    return rep.finish(
        "columns that mix up to three kinds of both formats (numbers, RK numbers, booleans, dates, texts that denote a number "
        "or a date in a subset of the formats or neither, stored in place or shared) are interpreted under each conflict "
        "setting; the form the whole column comes out in is compared with the one the setting asks for, and every value with "
        "the one its cell stands for.",
        minimum=6000,
    )


# --------------------------------------------------------------------- C21


READS = (
    ("arrow",), ("utf8",), ("utf8", 0, 1), ("arrow", 1, 0), ("arrow", 1, 2), ("arrow", 0, 6), ("arrow", 0, 4, (True, False, True, False)),
    ("utf8", 1, 0, (False, True, True)),
)


def reads_run(fmt, specs, setting, formats, reads, after, rep):
    """Reads one after the other, the cells being added before the first one or between them."""

    def run(eng):
        col = Column(eng, fmt, specs, setting, formats)
        if after is None:
            col.add()
        else:
            col.add(after)
        for i, r in enumerate(reads):
            if after is not None:
                # the values at hand so far
                col.check(*r, what=f"read {i + 1}, after {after + i} cells were added")
                col.add(after + i + 1)
            else:
                col.check(*r, what=f"read {i + 1} of {list(reads)}")
        col.add()
        col.check(what=f"after {list(reads)}")
        col.check("utf8", what=f"after {list(reads)} and a read of the whole")
        n = b_len(eng, [col.series], {})
        if n != col.last + 1:
            raise Violation(f"the length of {col} is {n!r} after {list(reads)}")
        rep.ok("read", len(reads))

    return run


def histories(fmt, tier):
    n, b = "number", "rk" if fmt == XLSB else "date"
    cols = [
        [(0, "text"), (1, n), (2, n), (4, "text:n")],
        [(0, "shared"), (1, "date"), (2, "date"), (3, "text:0"), (4, n)],
        [(1, b), (2, b), (3, "text:n"), (4, "date")],
        [(0, "shared:0"), (1, "shared:0"), (2, "date"), (3, "text")],
        [(0, n), (1, b), (2, "shared:n"), (5, "shared")],
    ]
    if fmt == XLSB:
        cols += [[(0, "bool"), (1, "rkdate"), (2, "rkdate"), (3, "rk"), (4, "text:n0")], [(0, "rk"), (1, "number"), (2, "bool"), (3, "rk")]]
    pairs = list(itertools.product(READS, repeat=2)) if tier != "quick" else [p for i, p in enumerate(itertools.product(READS, repeat=2)) if i % 2 == 0 or p[0] == p[1]]
    for specs in cols:
        for setting in ("no", "all") if tier == "quick" else SETTINGS:
            for p in pairs:
                yield specs, setting, p, None
            for r in READS[:6]:
                for after in range(len(specs)):
                    yield specs, setting, (r, ("arrow",)), after
            if tier != "quick":
                for p in itertools.product(READS[:6], repeat=3):
                    yield specs, setting, p, None


def c21(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un, tbb in MODES[:1] if tier == "quick" else MODES:
        eng = build_series(repo, un, tbb)
        for fmt in KINDS:
            for specs, setting, reads, after in histories(fmt, tier):
                explore(eng, rep, reads_run(fmt, specs, setting, FMT, reads, after, rep), "read", f"{label} build, {fmt}, {specs}, {setting}, {reads}, {after}")
    return rep.finish(
        "columns of mixed kinds of both formats are interpreted under histories of reads (as data and as text, whole, through "
        "windows and masks), the reads following each other or alternating with added cells, with arrays that share memory "
        "modelled as such; each read, and two reads of the whole at the end, are compared with the cells added.",
        minimum=1500,
    )


# --------------------------------------------------------------------- C23


SYMBOLIC = {XLSX: ("number", "date", "shared", "text"), XLSB: ("number", "rk:x", "bool", "date", "rkdate:x", "shared", "text")}


def decode_run(fmt, specs, setting, numbers, ops, rep):
    def run(eng):
        col = Column(eng, fmt, specs, setting, FMT, numbers)
        col.add()
        for w in ops:
            col.check(*w)
        rep.ok("value", len(specs))

    return run


OPS = (
    [("arrow",)],
    [("utf8",)],
    [("arrow", 1, 0)],
    [("arrow", 0, 2, (True, True))],
    [("utf8", 0, 1), ("arrow", 1, 0)],
    [("arrow",), ("arrow",)],
    [("arrow", 0, 2, (False, True)), ("utf8", 0, 2), ("arrow",)],
)


def c23(pid, tier, repo):
    rep = Report(pid, tier, repo)
    R = "value"
    for label, un, tbb in MODES[::2] if tier == "quick" else MODES:
        eng = build_series(repo, un, tbb)
        for fmt, ks in SYMBOLIC.items():
            for k in ks:
                for ops in OPS:
                    explore(eng, rep, decode_run(fmt, rows_of((k, "rkdate" if k == "rkdate:x" else k)), "no", "whole", ops, rep), R, f"{label} build, {fmt}, two of {k}, {ops}")
                    if k == "number":
                        explore(eng, rep, decode_run(fmt, rows_of((k, k)), "no", "fraction", ops, rep), R, f"{label} build, {fmt}, two fractions, {ops}")
            ks = [*(k.partition(":")[0] for k in ks), "text:0", "shared:0", "text:n", "shared:n"]
            for a, b in itertools.product(ks, repeat=2):
                for ops in OPS:
                    for setting in ("no", "all") if a != b and ops in OPS[:2] else ("all",):
                        explore(eng, rep, decode_run(fmt, rows_of((a, b)), setting, "whole", ops, rep), R, f"{label} build, {fmt}, {a} and {b}, {setting}, {ops}")
            if tier != "quick":
                for kk in itertools.product(ks, repeat=3):
                    explore(eng, rep, decode_run(fmt, rows_of(kk), "all", "serial", OPS[4], rep), R, f"{label} build, {fmt}, {kk}")
    return rep.finish(
        "columns of every pair of representations (texts of numbers, doubles, RK codes, booleans, date serials, indices of "
        "shared strings, texts) are interpreted with symbolic codes and values through sequences of window cuts, masks, "
        "conversions and renderings; each element shown is compared exactly with the once-decoded value of its cell.",
        minimum=3000,
    )


# --------------------------------------------------------------------- C24


def index_run(fmt, n, before, after, setting, reads, rep):
    """A shared string of any index among other cells."""

    def run(eng):
        K = consts(eng)
        items = [sym(f"item {i}", "str") for i in range(n)]
        table = PaArr(PaT("large_string"), items)
        s = eng.call(eng.anchor("rxls.series", "xl_series"), [table, fmt == XLSB], {"conflict_resolve": setting})
        make = eng.anchor("rxls.cell", "cell")
        if fmt == XLSB:
            i = BitSym(eng, "index", 32)
            val, x = code(i), N.from_bits([(i, b) for b in range(32)], False)
        else:
            x = N.of(FSym(eng, "index", -(2**70), 2**70, integral=True))
            t = sym("text of the index", "str")
            eng.path.data.setdefault("numbers", {})[ckey(t)] = x
            val = Term("encode", (t, "utf-8"), "bytes")
        inside = N.decide_ge(eng, x) and not N.decide_ge(eng, N.sub(x, Num({}, n)))
        what = f"a column of {fmt} with an index {'inside' if inside else 'outside'} of a table of {n} strings"
        row, at = 0, len(before)
        cells = [*before, "index", *after]
        vals = []
        try:
            for c in cells:
                if c == "index":
                    args = [row, 0, K["shared"], val]
                    vals.append(None)
                elif c == "shared":
                    args = [row, 0, K["shared"], struct.pack("<I", 0) if fmt == XLSB else b"0"]
                    vals.append(items[0] if items else None)
                else:
                    tx = sym(f"text {row}", "str")
                    args = [row, 0, K["text"], tx if fmt == XLSB else Term("encode", (tx, "utf-8"), "bytes")]
                    vals.append(tx)
                eng.call(eng.getattr(s, "add"), [eng.call(make, args, {})], {})
                row += 1
            for mode, off, length, mask in reads:
                kw = {} if mask is None else {"idx": PaArr(PaT("bool"), list(mask))}
                r = A.as_pa(eng, eng.call(eng.getattr(s, f"to_{mode}"), [off, length], kw))
                pos = [off + k for k, b in enumerate(mask) if b] if mask is not None else list(range(off, off + length if length else len(cells)))
                got = r.items(eng)
                if at in pos and not inside:
                    raise Violation(f"{what}: the cell becomes {show(got)}")
                for p, g in zip(pos, got):
                    if p == at and not (is_conc(g) or any(same_text(eng, g, t) and N.decide_eq(eng, N.sub(x, Num({}, j))) for j, t in enumerate(items))):
                        raise Violation(f"{what}: the cell becomes {show(g)}")
                    if p < len(vals) and p != at and vals[p] is not None and not same_text(eng, g, vals[p]):
                        raise Violation(f"{what}: the cell of row {p} becomes {show(g)}")
        except PyExc as e:
            if inside and (n or "shared" not in cells):
                raise Violation(f"{what}: the read fails with {e.val!r}", e.val.where) from None
        rep.ok("index")

    return run


SIZES = {"number": 8, "date": 8, "rk": 4, "rkdate": 4, "bool": 1, "shared": 4}


def size_run(kind, sizes, mode, rep):
    """Cells whose bytes are not as many as their kind needs."""

    def run(eng):
        K = consts(eng)
        s = eng.call(eng.anchor("rxls.series", "xl_series"), [PaArr(PaT("large_string"), [sym("item", "str")] * 3), True], {})
        make = eng.anchor("rxls.cell", "cell")
        total = sum(sizes)
        what = f"a column of XLSB with {kind} cells of {list(sizes)} bytes"
        try:
            for i, n in enumerate(sizes):
                eng.call(eng.getattr(s, "add"), [eng.call(make, [i, 0, K["real" if kind == "number" else kind], b"\0" * n], {})], {})
            r = A.as_pa(eng, eng.call(eng.getattr(s, f"to_{mode}"), [], {}))
        except PyExc as e:
            if all(n == SIZES[kind] for n in sizes):
                raise Violation(f"{what}: the read fails with {e.val!r}", e.val.where) from None
            rep.ok("size")
            return
        if total < SIZES[kind] * len(sizes):
            raise Violation(f"{what} is not rejected: {show(r.items(eng))} comes out")
        rep.ok("size")

    return run


def c24(pid, tier, repo):
    rep = Report(pid, tier, repo)
    W2 = ([("arrow", 0, 0, None)], [("utf8", 0, 0, None)], [("utf8", 0, 1, None), ("arrow", 1, 0, None)], [("arrow", 0, 3, (False, True, True))], [("arrow", 0, 4, None)])
    for label, un, tbb in MODES[:1] if tier == "quick" else MODES:
        eng = build_series(repo, un, tbb)
        for fmt in KINDS:
            for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 5):
                for before, after in (((), ()), (("shared",), ()), ((), ("shared",)), (("text",), ("shared",)), (("shared",), ("text",)), (("text",), ("text",))):
                    for setting in ("no", "all"):
                        for reads in W2:
                            explore(eng, rep, index_run(fmt, n, before, after, setting, reads, rep), "index", f"{label} build, {fmt}, {n} strings, {before}, {after}, {setting}, {reads}")
        for kind, size in SIZES.items():
            some = (0, 1, size - 1, size, size + 1, size // 2, size * 2)
            for m in (1, 2, 3):
                for sizes in itertools.product(sorted(set(some)), repeat=m):
                    if m < 3 or size in sizes:
                        for mode in ("arrow", "utf8"):
                            explore(eng, rep, size_run(kind, sizes, mode, rep), "size", f"{label} build, {kind}, {sizes}, {mode}")
    bounds(rep, repo, tier)
    return rep.finish(
        "columns with a shared-string index of 32 symbolic bits (XLSB) or of any integer (XLSX) over tables of up to two "
        "strings, and columns of cells with too few or too many bytes, are interpreted with arrays whose unchecked reads are "
        "modelled; an index outside of the table and a short buffer have to be reported. The compiled scan of records, where "
        "indices are not checked, is interpreted on streams that end anywhere.",
        minimum=700,
    )

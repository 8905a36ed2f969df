"""C17, C18, C19, C36: tables made of whole workbooks by the read function."""
from __future__ import annotations

import itertools
import math
import re
import struct

from sa.engine import exc_is
from sa.models import Deadlock, install
from sa.report import Report

from . import columns
from .biff import explore
from .columns import A, F, N, TableV, double
from .common import NUMBA, PLAIN, Pruned, PyExc, Undecided, Violation
from .readers import *  # noqa: F403
from .readers import XLSB, XLSX, el, make, text, wstr
from .series import Cell, Column, some_number
from .xlsx import sheet_events

FMTS = (XLSX, XLSB)
# styles 0: general, 1: a date, 2: a number
STYLES = ([], [0, 14, 2])
MODES = (("plain", PLAIN, False), ("accelerated", NUMBA, False))


def build(repo, unavailable=PLAIN, tbb=False):
    eng = columns.build(repo, unavailable, tbb, models=install)
    eng.step_limit = 400_000
    return eng


def letters(c):
    s = ""
    c += 1
    while c:
        c, r = divmod(c - 1, 26)
        s = chr(65 + r) + s
    return s


class Sheet:
    """A worksheet given by the kinds of its cells.

    ``rows``: strings or lists with one entry per column: ``.`` nothing, ``t`` a text of its own, ``s`` the same shared,
    ``n`` a number, ``i`` a number known here, ``d`` a date, ``N`` NaN; of longer entries, ``#1.5`` is that number,
    ``@1.5`` the date of that serial, and others are texts as they stand.
    """

    path, mark = "file", ""

    def __init__(self, eng, fmt, rows, at=None, name=lambda r, c: f"r{r}c{c}", numbers="positive"):
        self.eng, self.fmt, self.name, self.numbers = eng, fmt, name, numbers
        self.at = list(range(len(rows[0]))) if at is None else list(at)
        self.cells = {}
        self.shared = []
        self.rows = []
        for r, row in enumerate(rows):
            out = []
            for j, k in enumerate(row):
                if k != "." and k is not None:
                    out.append(self.cell(r, j, k))
            self.rows.append(out)
        self.n = len(rows)

    def number(self, r, j, how):
        return some_number(self.eng, f"value of {self.mark}{r}, {j}", how)

    def cell(self, r, j, k):
        eng, c = self.eng, self.at[j]
        xlsb = self.fmt == XLSB
        ref = {"r": f"{letters(c)}{r + 1}"}
        rec = lambda rid, style, data: (rid, struct.pack("<II", c, style) + data)  # noqa: E731
        if k in ("t", "s", "=") or (len(k) > 1 and k[0] not in "#@"):
            x = Cell(r, "text")
            x.text = k[1:] if k[0] == "=" else self.name(r, j) if len(k) == 1 else k
            self.cells[r, j] = x
            if k == "s":
                self.shared.append(x.text)
                i = len(self.shared) - 1
                return rec(7, 0, struct.pack("<I", i)) if xlsb else el("c", el("v", text(str(i))), t="s", **ref)
            return rec(6, 0, wstr(x.text)) if xlsb else el("c", el("v", text(x.text)), t="str", **ref)
        x = Cell(r, "date" if k[0] in "d@" else "number")
        self.cells[r, j] = x
        style = 1 if k[0] in "d@" else 2
        if k in ("N", "i") or len(k) > 1:
            v = float(k[1:]) if len(k) > 1 else math.nan if k == "N" else float(10 * r + j)
            x.num = v
            data, t = struct.pack("<d", v), "NaN" if k == "N" else repr(v)
        else:
            x.num = self.number(r, j, "serial" if k == "d" else self.numbers)
            if xlsb:
                data = double(eng, f"double of {self.mark}{r}, {j}", x.num)
            else:
                t = x.text = Term("solid", (f"number text of {self.mark}{r}, {j}",), "str")
                eng.path.data.setdefault("numbers", {})[ckey(t)] = x.num
        if xlsb:
            return rec(5, style, data) if isinstance(data, bytes) else (5, ByteStrOf(eng, struct.pack("<II", c, style), data))
        return el("c", el("v", text(t)), s=str(style), **ref)

    def file(self):
        """The part, and the table of shared strings."""
        if self.fmt == XLSB:
            part = [x for i, r in enumerate(self.rows) for x in [(0, struct.pack("<I", i) + b"\0" * 21), *r]] + [(402, b"")]
            shared = [(159, struct.pack("<II", len(self.shared), len(self.shared))), *((19, b"\0" + wstr(s)) for s in self.shared), (160, b"")]
        else:
            part = sheet_events([[e for c in r for e in c] for r in self.rows])
            shared = el("sst", [e for s in self.shared for e in el("si", el("t", text(s)))])
        return part, shared

    def book(self):
        """The rest of the workbook."""
        return {"styles": STYLES}

    def read(self, *a, sheet=0, **kw):
        """The read function on a workbook with this sheet."""
        eng = self.eng
        part, shared = self.file()
        make(eng, self.fmt, part, shared=shared, enter=False, **self.book())
        args = [sym(self.path, "str"), sheet, *map(arg_of, a)]
        try:
            return eng.call(eng.anchor("rxls.reader.common", "read"), args, {k: arg_of(v) for k, v in kw.items()})
        except Deadlock:
            raise Undecided("the consumer waits forever (C10)") from None

    # ------------------------------------------------------------ what is expected

    def column(self, j, setting="no", formats=None):
        c = object.__new__(Column)
        c.eng, c.fmt, c.setting, c.formats = self.eng, self.fmt, setting, formats
        c.cells = {r: x for (r, i), x in self.cells.items() if i == j}
        return c

    def head(self, first, height):
        """Names of a header that is in the sheet, before they are told apart."""
        out, prev = [], None
        for j in range(len(self.at)):
            own = [self.cells[r, j].text if (r, j) in self.cells else None for r in range(first, first + height)]
            top = next((i for i, x in enumerate(own) if x), None)
            if top is None:
                out.append("Unnamed")
                continue
            if prev is not None:
                own[:top] = prev[:top]
            prev = own
            out.append(", ".join(x for x in own if x))
        return out


def ByteStrOf(eng, head, data):
    from sa.bits import ByteStr

    return ByteStr(eng, [*(lift(eng, x) for x in head), *data.parts])


def arg_of(v):
    if isinstance(v, list):
        return ListV([arg_of(x) for x in v])
    if isinstance(v, tuple):
        return tuple(arg_of(x) for x in v)
    if isinstance(v, dict):
        d = DictV()
        for k, x in v.items():
            d.items[ckey(k)] = (k, arg_of(x))
        return d
    return v


def names_of(t):
    return list(t.names)


def expect_names(what, got, bases):
    """Every column has its own name, told apart from the earlier ones."""
    if len(got) != len(bases):
        raise Violation(f"{what}: {len(got)} names for {len(bases)} columns")
    seen = set()
    for i, (g, b) in enumerate(zip(got, bases)):
        if not isinstance(g, str):
            raise Undecided(f"{what}: the name {g!r}")
        if g in seen:
            raise Violation(f"{what}: two columns are called {g!r}: {got}")
        if b in seen:
            if not re.fullmatch(re.escape(b) + r"[^0-9]*\d+[^0-9]*", g):
                raise Violation(f"{what}: column {i} is called {g!r} where {b!r}, which is taken, gets a numeric suffix: {got}")
        elif g != b:
            raise Violation(f"{what}: column {i} is called {g!r} instead of {b!r}: {got}")
        seen.add(g)


def call(sh, what, error, /, *a, **kw):
    """The table, or None where an expected error is raised."""
    try:
        t = sh.read(*a, **kw)
    except PyExc as e:
        if error is not None and exc_is(e.val.cls, error):
            return None
        raise Violation(f"{what}: the read fails with {e.val!r}" + (f" instead of {error.__name__}" if error else ""), e.val.where) from None
    if error is not None:
        raise Violation(f"{what}: {t!r} comes out where {error.__name__} has to be raised")
    if not isinstance(t, TableV):
        raise Undecided(f"{what}: {short(t)} is read")
    return t


def expect_columns(sh, what, t, rows, order=None, setting="no", formats=None):
    """The columns of a table hold these rows of the sheet."""
    n = len(sh.at)
    if len(t.cols) != n:
        raise Violation(f"{what}: {len(t.cols)} columns where the sheet has {n}")
    for j in range(n):
        arr = A.as_pa(sh.eng, t.cols[j])
        sh.column(j, setting, formats).compare(arr, rows, "arrow", f"{what}: column {j}")


# --------------------------------------------------------------------- C17


def cut_run(fmt, rows, at, header, skip, lookup, rep, setting="no"):
    def run(eng):
        sh = Sheet(eng, fmt, rows, at)
        kw = {}
        first = 0
        if lookup is not None:
            kw["lookup_head"], first = lookup
        if skip:
            kw["skip_rows_after_header"] = skip
        if setting != "no":
            kw["conflict_resolve"] = setting
        h = 0 if isinstance(header, list) else int(header)
        what = f"{fmt}, sheet {rows} at {sh.at}, header {header}, lookup_head {lookup}, {skip} rows skipped after the header"
        t = call(sh, what, None, header, **kw)
        expect_columns(sh, what, t, list(range(first + h + skip, sh.n)), setting=setting)
        rep.ok("window")

    return run


def filters_run(fmt, rows, header, filters, chosen, strategy, ops, rep, skip=0, lookup=None, at=None):
    """``chosen``: the filter columns in order; ``ops``: how they are combined, from left to right."""

    def run(eng):
        sh = Sheet(eng, fmt, rows, at)
        kw = {"row_filters": filters}
        if strategy is not None:
            kw["row_filters_strategy"] = strategy
        first = 0
        if lookup is not None:
            kw["lookup_head"], first = lookup
        if skip:
            kw["skip_rows_after_header"] = skip
        start = first + (0 if isinstance(header, list) else int(header)) + skip
        keep = []
        for r in range(start, sh.n):
            m = None
            for i, j in enumerate(chosen):
                b = (r, j) in sh.cells and not (isinstance(sh.cells[r, j].num, float) and math.isnan(sh.cells[r, j].num))
                m = b if m is None else (m and b if ops[i - 1] == "and" else m or b)
            if m:
                keep.append(r)
        what = f"{fmt}, sheet {rows} at {sh.at}, header {header}, lookup_head {lookup}, skip {skip}, row_filters {filters}, strategy {strategy}"
        t = call(sh, what, None if keep else ValueError, header, **kw)
        if t is not None:
            expect_columns(sh, what, t, keep)
        rep.ok("filter")

    return run


CUTS = (
    (("tttt", "tt.t", "ttt.", "nntd", "n.td", "..sd", "nnt.", "n.t."), None),
    (("..t", "t.t", ".tt", "tt.", "n.n", "n..", ".dn"), (1, 2, 5)),
    ((".t.", "t.t", "ttt", "s.n", "s.n", ".tn", "..n"), (0, 25, 26)),
    (("ttt", "ttt", "t..", "ddd", ".d.", "d..", "..d"), None),
)


def c17(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un, tbb in MODES[:1] if tier == "quick" else MODES:
        eng = build(repo, un, tbb)
        for fmt in FMTS:
            for rows, at in CUTS:
                n = len(rows[0])
                for header in (0, True, 1, 2, 3, [f"g{i}" for i in range(n)]):
                    for skip in (0, 1, 2, 3) if header != 3 else (0, 1):
                        for lookup in LOOKUPS[rows]:
                            if header == 3 and lookup:
                                continue
                            explore(eng, rep, cut_run(fmt, rows, at, header, skip, lookup, rep, "all" if header != 2 and skip % 2 else "no"), "window", f"{label}, {fmt}, {rows}, header {header}, lookup {lookup}, skip {skip}")
            explore(eng, rep, cut_run(fmt, ("tt", "tt", "nn"), None, True, 2, None, rep), "window", f"{label}, {fmt}, nothing is left")
            explore(eng, rep, cut_run(fmt, ("tt", "tt", "nn"), None, True, 5, None, rep), "window", f"{label}, {fmt}, more than all is skipped")
            explore(eng, rep, cut_run(fmt, ("tt",), None, True, 0, None, rep), "window", f"{label}, {fmt}, nothing but a header")
            for args in filter_cases(tier):
                explore(eng, rep, filters_run(fmt, *args[0], rep, **args[1]), "filter", f"{label}, {fmt}, {args}")
    return rep.finish(
        "the read function is interpreted on whole workbooks of both formats through their readers, columns and conversions; "
        "the sheets have symbolic numbers and dates, texts of their own, gaps, columns of different lengths and of shuffled "
        "first rows; headers, lookups, skipped rows, and filters of one to three columns under every strategy. Each element of "
        "each column of the table is compared with the cell of the sheet row its position stands for.",
        minimum=500,
    )


LOOKUPS = {
    CUTS[0][0]: (None, ("r0c1", 0), ("r1c3", 1), (2, 0), ("^r1", 1)),
    CUTS[1][0]: (None, ("r0c2", 0), ("r1c0", 1), (1, 1), ("2c1$", 2), (5, 0)),
    CUTS[2][0]: (None, ("r1c", 1), (25, 0), (0, 1)),
    CUTS[3][0]: (None, ("^r1c1$", 1)),
}

# all combinations of three filter columns, and a column that is always there
EIGHT = tuple("".join("n" if b else "." for b in bits) + "t" for bits in itertools.product((1, 0), repeat=3))
MIXED = ("nsdt", "N.dt", ".sdt", "n..t", "N..t", "Ns.t", "..dt", "ns.t", "N.dt")


def filter_cases(tier):
    head = "tttt"
    names = [f"^r0c{j}$" for j in range(4)]
    for data in (EIGHT, EIGHT[::-1], MIXED):
        rows = (head, *data)
        # one filter
        for j in range(3):
            for f in (names[j], [names[j]], [j], f"r0c{j}"):
                yield (rows, True, f, [j], None, []), {}
            yield (rows, True, names[j], [j], "and", []), {}
            yield (rows, True, [j], [j], None, []), {"skip": 2}
        # given and generated names
        yield (rows[1:], 0, r"Unnamed\D*1$", [1], None, []), {}
        yield (rows[1:], ["a", "b", "ab", "c"], "a", [0, 2], None, ["or"]), {}
        yield (rows[1:], ["a", "b", "ab", "c"], "a$", [0], None, []), {}
        yield (rows[1:], ["a", "b", "ab", "c"], ["b", "a$"], [0, 1], "and", ["and"]), {}
        # two filters
        for a, b in ((0, 1), (1, 2), (0, 2)):
            for s, ops in ((None, ["or"]), ("or", ["or"]), ("and", ["and"]), (["and"], ["and"]), (("or",), ["or"])):
                yield (rows, True, [names[a], names[b]], [a, b], s, ops), {}
                yield (rows, True, [b, a], [a, b], s, ops), {}
        # three
        for s in ("or", "and"):
            yield (rows, True, "^r0c[0-2]$", [0, 1, 2], s, [s, s]), {}
            yield (rows, True, [0, 1, 2], [0, 1, 2], s, [s, s]), {"skip": 1}
        for s in itertools.product(("or", "and"), repeat=2):
            yield (rows, True, [0, 1, 2], [0, 1, 2], list(s), s), {}
            yield (rows, True, [0, 1, 2], [0, 1, 2], tuple(s), s), {"skip": 3}
        # the header is looked up
        yield (("...t", "t...", *rows), True, ["r2c0"], [0], None, []), {"lookup": ("r2c1", 2)}
        yield (("...t", "t...", *rows), True, [0, 1], [0, 1], "and", ["and"]), {"lookup": ("r2c1", 2), "skip": 1}
        # two rows of header
        yield (("tttt", *rows), 2, [1, 2], [1, 2], "and", ["and"]), {}
        # other columns of the sheet
        for at in ((1, 2, 3, 9), (0, 3, 2 + 26, 30)):
            yield (rows, True, [1], [1], None, []), {"at": at}
            yield (rows, True, [2, 0], [0, 2], "and", ["and"]), {"at": at}
            yield (rows, True, names[1:3], [1, 2], None, ["or"]), {"at": at}
    # nothing is left
    yield (("tt", "n.", "n."), True, "r0c1", [1], None, []), {}
    yield (("ttt", "n.t", ".nt"), True, [0, 1], [0, 1], "and", ["and"]), {}
    yield (("tt", "tN", "tN"), True, [1], [1], None, []), {}


# --------------------------------------------------------------------- C18


def order_run(fmt, order, at, header, pick, rep):
    """Columns that first hold a value in some order."""

    def run(eng):
        n = len(order)
        h = 0 if isinstance(header, list) else int(header)
        kinds = "ndt"
        rows = []
        # the first rows are a staircase of texts
        for k in range(n):
            rows.append("".join("t" if order.index(j) <= k else "." for j in range(n)))
        rows += ["".join(kinds[j % 3] for j in range(n)), "".join(kinds[j % 3] if j != pick else "." for j in range(n)), "".join(kinds[j % 3] if j != order[0] else "." for j in range(n))]
        sh = Sheet(eng, fmt, rows, at)
        skip = n - h
        kw = {"skip_rows_after_header": skip}
        bases = header if isinstance(header, list) else sh.head(0, h) if h else None
        pa = lambda n: eng.lib.calls["pyarrow." + n](eng, [], {})  # noqa: E731
        what = f"{fmt}, columns at {sh.at} appearing in the order {order}, header {header}"
        chosen = None
        if pick is not None:
            if header == 0 or pick % 2:
                kw["row_filters"] = [pick]
            elif isinstance(header, list):
                kw["row_filters"] = [f"{header[pick]}$"] if pick else f"{header[pick]}$"
            else:
                kw["row_filters"] = ("^" + sh.head(0, h)[pick].replace(".", "[.]") + "$") if bases.count(bases[pick]) == 1 else [pick]
                if isinstance(kw["row_filters"], str) and (order[0] + h) % 2:
                    kw["row_filters"] = [kw["row_filters"]]
            chosen = pick
            what += f", filter {kw['row_filters']}"
        t = call(sh, what, None, header, **kw)
        rows_left = [r for r in range(h + skip, sh.n) if chosen is None or (r, chosen) in sh.cells]
        expect_columns(sh, what, t, rows_left)
        got = names_of(t)
        if bases is not None:
            if isinstance(header, list):
                if got != header:
                    raise Violation(f"{what}: the columns are called {got}")
            else:
                expect_names(what, got, bases)
        # the same names and positions choose the types
        for dt in ("list", "dict"):
            j = pick if pick is not None else order[0]
            want = "large_string"
            kw2 = dict(kw)
            if dt == "list":
                kw2["dtypes"] = [pa("large_string") if i == j else A.as_pa(eng, c).t for i, c in enumerate(t.cols)]
            else:
                kw2["dtypes"] = {got[j]: pa("large_string")}
            t2 = call(sh, f"{what}, the type of column {j} given by {dt}", None, header, **kw2)
            if names_of(t2) != got:
                raise Violation(f"{what}: the columns are called {names_of(t2)}, and {got} without types")
            for i, (a, b) in enumerate(zip(t.cols, t2.cols)):
                ta, tb = A.as_pa(eng, a).t, A.as_pa(eng, b).t
                if tb.n != (want if i == j else ta.n):
                    raise Violation(f"{what}: with the type of column {j} given by {dt}, column {i} is of type {tb.n}")
        rep.ok("order", 3)

    return run


def c18(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for fmt in FMTS:
        for at in ((0, 1, 2), (2, 9, 26)) if tier == "quick" else ((0, 1, 2), (2, 9, 26), (3, 9, 10), (0, 255, 256)):
            for order in itertools.permutations(range(3)):
                for header in (0, True, 2, 3, ["x", "y", "z"]):
                    for pick in (None, 0, 1, 2):
                        explore(eng, rep, order_run(fmt, order, at, header, pick, rep), "order", f"{fmt}, {order}, {at}, {header}, {pick}")
        if tier != "quick":
            for order in itertools.permutations(range(4)):
                for header in (0, True, 3, ["x", "y", "z", "x1"]):
                    for pick in (None, 0, 1, 2, 3):
                        explore(eng, rep, order_run(fmt, order, (0, 2, 10, 30), header, pick, rep), "order", f"{fmt}, {order}, {header}, {pick}")
    return rep.finish(
        "the read function is interpreted on sheets of both formats whose columns first hold a value in every order, with names "
        "of one or more rows, generated and given ones, filters by name and by position and types by name and by position; the "
        "columns of the table are compared element by element with the columns of the sheet from left to right.",
        minimum=600,
    )


# --------------------------------------------------------------------- C19

HEADS = ("a", "a.1", "b", None)
MORE_HEADS = ("a", "a.1", "a.1.1", "a.2", "b", "Unnamed", "Unnamed.1", None)


def names_run(fmt, heads, rep, at=None):
    def run(eng):
        n = len(heads)
        sh = Sheet(eng, fmt, [["=" + h if h else "." for h in heads], "i" * n], at)
        what = f"{fmt}, header texts {list(heads)}"
        t = call(sh, what, None, True)
        expect_names(what, names_of(t), [h or "Unnamed" for h in heads])
        rep.ok("names")

    return run


def count_run(fmt, rows, header, rep, at=None):
    def run(eng):
        sh = Sheet(eng, fmt, rows, at)
        n = len(sh.at)
        what = f"{fmt}, {n} columns at {sh.at}, header {header!r}"
        bad = isinstance(header, list) and len(header) != n
        t = call(sh, what, ValueError if bad else None, header)
        if t is not None:
            got = names_of(t)
            if isinstance(header, list):
                if got != header:
                    raise Violation(f"{what}: the columns are called {got}")
            elif len(got) != n or len(set(got)) != n:
                raise Violation(f"{what}: the columns are called {got}")
        rep.ok("count")

    return run


def c19(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for fmt in FMTS:
        for heads in itertools.product(HEADS, repeat=4):
            if not any(heads):
                continue  # an empty row is no header
            explore(eng, rep, names_run(fmt, heads, rep), "names", f"{fmt}, {heads}")
        for heads in itertools.product(MORE_HEADS, repeat=3):
            if not any(heads):
                continue
            explore(eng, rep, names_run(fmt, heads, rep), "names", f"{fmt}, {heads}")
        if tier != "quick":
            for heads in itertools.product(MORE_HEADS[:6], repeat=4):
                explore(eng, rep, names_run(fmt, heads, rep), "names", f"{fmt}, {heads}")
        for heads in (("a",) * 6, ("a", "a", "a.1", "a.1", "a.2", "a", "a"), ("Unnamed", None, None, "Unnamed.1", None), ("a.1", "a.1", "a", "a", "a"), ("x", "x ", "X", "x"), (None,) * 12 + ("a",), ("a",) * 13):
            explore(eng, rep, names_run(fmt, tuple(h.strip() if h else h for h in heads), rep), "names", f"{fmt}, {heads}")
        for rows in (("i",), ("ii", ".i"), ("i.i", "ii."), (".i..", "i.ii"), ("." + "i" * 11, "i" * 12)):
            n = len(rows[0])
            for header in (0, False, *([f"n{i}" for i in range(k)] for k in range(n + 3))):
                for at in (None, range(3, n + 3), range(0, 2 * n, 2)):
                    explore(eng, rep, count_run(fmt, rows, header, rep, at), "count", f"{fmt}, {rows}, {header}, {at}")
    return rep.finish(
        "the read function is interpreted on sheets of both formats with every header of four columns over texts that repeat, "
        "are missing or look like told-apart ones, with longer runs of them, and with given lists of every length; the names "
        "must be the texts, told apart by a number where they repeat.",
        minimum=1000,
    )


# --------------------------------------------------------------------- C36


def group_run(fmt, rows, rep, same=False, before=0, at=None):
    def run(eng):
        n = len(rows[0]) + 1
        h = len(rows)
        lead = ["s" + "." * (n - 1)] * before  # rows above the header
        full = [r + "t" for r in rows]  # no row is empty
        name = (lambda r, c: "ab"[r % 2]) if same else (lambda r, c: f"r{r}c{c}")
        sh = Sheet(eng, fmt, [*lead, *full, "i" * n], at, name=name)
        what = f"{fmt}, a header of {h} rows {[''.join(r) for r in rows]}" + (" with equal texts" if same else "") + (f" below {before} rows" if before else "")
        # the last column starts where the header does
        kw = {"lookup_head": sh.at[-1]} if before else {}
        t = call(sh, what, None, h if h > 1 else True, **kw)
        expect_names(what, names_of(t), sh.head(before, h))
        expect_columns(sh, what, t, [before + h])
        rep.ok("group")

    return run


# headers in which cells hold empty texts: (rows, names)
EMPTY = (
    ([("=", "=a", "=")], ["Unnamed", "a", "Unnamed.1"]),
    ([("=a", "=", ".")], ["a", "Unnamed", "Unnamed.1"]),
    ([("=", "=a"), ("=", "=b")], ["Unnamed", "a, b"]),
    ([("=a", "=x"), ("=", "."), ("=b", "=")], ["a, b", "x"]),
    ([(".", "=a"), ("=", "=b"), (".", "=")], ["Unnamed", "a, b"]),
    ([("=", "=", "=a"), ("=b", "=", "=")], ["b", "Unnamed", "a"]),
)


def empty_run(fmt, rows, names, rep):
    def run(eng):
        n, h = len(names), len(rows)
        sh = Sheet(eng, fmt, [*([*r, "t"] for r in rows), "i" * (n + 1)])
        what = f"{fmt}, a header of the cells {rows}"
        t = call(sh, what, None, h if h > 1 else True)
        expect_names(what, names_of(t)[:-1], names)
        rep.ok("empty-texts")

    return run


def c36(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    shapes = [(2, 3), (3, 2), (2, 4), (4, 2)] if tier == "quick" else [(2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (2, 5)]
    for fmt in FMTS:
        for h, n in shapes:
            for bits in itertools.product(".t", repeat=h * n):
                rows = ["".join(bits[i * n : i * n + n]) for i in range(h)]
                explore(eng, rep, group_run(fmt, rows, rep), "group", f"{fmt}, {rows}")
                if (h, n) == (2, 3):
                    explore(eng, rep, group_run(fmt, rows, rep, same=True), "group", f"{fmt}, {rows}, equal texts")
                    explore(eng, rep, group_run(fmt, rows, rep, before=1, at=(0, 3, 27, 28)), "group", f"{fmt}, {rows}, lower")
        for rows, names in EMPTY:
            explore(eng, rep, empty_run(fmt, rows, names, rep), "empty-texts", f"{fmt}, {rows}")
        for rows in ROWS3:
            explore(eng, rep, group_run(fmt, rows, rep), "group", f"{fmt}, {rows}")
            explore(eng, rep, group_run(fmt, [r.replace("t", "s") for r in rows], rep), "group", f"{fmt}, {rows}, shared")
    return rep.finish(
        "the read function is interpreted on sheets of both formats with every pattern of empty cells of headers of two rows and "
        "up to four columns and of up to four rows and two columns (and some larger ones); each name is compared with its own "
        "texts below the ones of the nearest column with any text on its left.",
        minimum=1000,
    )


ROWS3 = (
    ("t....", ".t.t.", "ttttt"), ("t..t.", "tt.t.", ".tt.t"), ("..t..", "t...t", ".t.t."), ("t.t.t.", ".tt..t", "t..tt."), ("tt....", "......", "tttttt"), ("......", "t..t..", "......"),
    ("t...", "....", "tttt"), ("t...", "t.t.", "tttt", "...."), ("t.......", "t...t...", "t.t.t.t.", "tttttttt"),
    ("t..", ".t.", "..t", "t..", "ttt"), ("t...", "....", ".t.t", "t...", "...t", "tttt"), ("tt",) * 8, ("t.",) * 6 + (".t",) * 5,
)


# --------------------------------------------------------------------- C22

TYPES = (
    ("int64",), ("int32",), ("int8",), ("uint64",), ("float64",), ("float32",), ("bool_",), ("string",), ("large_string",),
    ("timestamp", "s"), ("timestamp", "ms"), ("timestamp", "us"), ("timestamp", "ns"), ("timestamp", "ms", "UTC"), ("date32",), ("date64",),
    ("time32", "s"), ("time64", "us"), ("duration", "ms"), ("large_binary",),
)
# columns: whole numbers, large ones, fractions, dates (one with milliseconds), texts, numeric texts, date texts, nothing but a name
BODY = (
    ["#0", "#3e9", "#1.5", "@43831", "t", "=12", "=2020-01-01", "."],
    ["#1", ".", ".", "@43832.5000000116", ".", "=7", ".", "."],
    [".", "#4e9", "#2.25", "d", "s", ".", "=2021-12-31", "."],
    ["#1", "#5e9", "#0.25", ".", "t", "=0", "=2022-02-02", "."],
)
LABELS = ("whole", "large", "fraction", "date", "text", "numeral", "iso", "nothing")


def type_of(eng, t):
    return eng.lib.calls["pyarrow." + t[0]](eng, list(t[1:]), {})


def literal(v):
    """The known parts of a text."""
    if isinstance(v, str):
        return v
    if isinstance(v, Term):
        return "…".join(map(literal, v.args)) if v.op in ("cat", "format", "shown", "repr") else "…"
    return ""


def same_value(a, b):
    return ckey(a) == ckey(b) or (isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b)))


def types_run(fmt, header, at, make_types, rep, label, kw=None, only=None):
    """``make_types``: of the columns of the table without types, the argument and the types wanted per column."""

    def run(eng):
        rows = [list(r) for r in BODY]
        if not isinstance(header, list) and header:
            rows = [["=" + x for x in LABELS], *rows]
        if only is not None:
            rows = [[x for j, x in enumerate(r) if j in only] for r in rows]
        # no row is empty
        last = next((r[0] for r in rows[-4:] if r[0] != "."), "#1") if only is not None and len(only) == 1 else "t"
        rows = [[*r, last] for r in rows]
        if not isinstance(header, list) and header:
            rows[0][-1] = "=last"
        n = len(rows[0])
        head = [*header[: n - 1], header[-1]] if isinstance(header, list) else header
        if head is False or head == 0 or isinstance(head, list):
            # without a name, a column of nothing is no column
            keep = [j for j in range(n) if any(r[j] != "." for r in rows)]
            rows = [[r[j] for j in keep] for r in rows]
            n = len(keep)
            head = head[:n] if isinstance(head, list) else head
        sh = Sheet(eng, fmt, rows, at and at[:n])
        what = f"{fmt}, columns {rows} at {sh.at}, header {head}, {label}"
        t = call(sh, f"{what}, without types", None, head, **(kw or {}))
        own = [A.as_pa(eng, c) for c in t.cols]
        arg, wanted, wrong = make_types(eng, t.names, own)
        expected, failing = [], []
        for a, w in zip(own, wanted):
            try:
                expected.append(A.cast(eng, a, w) if w is not None else a)
            except PyExc:
                failing.append(t.names[len(expected)])
                expected.append(None)
        what = f"{what}, dtypes {arg!r}"
        try:
            t2 = sh.read(head, **(kw or {}), dtypes=arg)
        except PyExc as e:
            if not exc_is(e.val.cls, ValueError) or not (failing or wrong):
                raise Violation(f"{what}: the read fails with {e.val!r}" + (" instead of ValueError" if failing or wrong else ""), e.val.where) from None
            msg = e.val.args[0] if e.val.args else ""
            if not wrong:
                msg = literal(msg)
                if not any(x in msg for x in failing):
                    raise Violation(f"{what}: {failing} cannot be cast, and the error says {msg!r}", e.val.where) from None
            rep.ok("refused")
            return
        if wrong:
            raise Violation(f"{what}: {len(t.names)} columns come out where the collection has a wrong length")
        if failing:
            raise Violation(f"{what}: a table comes out where column {failing[0]!r} cannot be cast")
        if not isinstance(t2, TableV):
            raise Undecided(f"{what}: {short(t2)} is read")
        if t2.names != t.names:
            raise Violation(f"{what}: the columns are called {t2.names}, and {t.names} without types")
        for name, c, e, w in zip(t.names, t2.cols, expected, wanted):
            c = A.as_pa(eng, c)
            if c.t.n != e.t.n:
                raise Violation(f"{what}: column {name!r} is of type {c.t.n} instead of {e.t.n}" + ("" if w is not None else ", which it has when no type is given"))
            x, y = c.items(eng), e.items(eng)
            if len(x) != len(y):
                raise Violation(f"{what}: column {name!r} has {len(x)} values instead of {len(y)}")
            for i, (p, q) in enumerate(zip(x, y)):
                if not same_value(p, q):
                    raise Violation(f"{what}: value {i} of column {name!r} is {p!r} instead of {q!r}")
        rep.ok("applied")

    return run


def one_type(j, ty, form):
    def f(eng, names, own):
        n = len(own)
        w = [None] * n
        if j >= n:
            raise Pruned
        w[j] = type_of(eng, ty)
        if form == "dict":
            return {names[j]: w[j]}, w, False
        full = [x if x is not None else a.t for x, a in zip(w, own)]
        return (full if form == "list" else tuple(full)), full, False

    return f


def every_type(ty):
    def f(eng, names, own):
        t = type_of(eng, ty)
        return t, [t] * len(own), False

    return f


def some_types(shift, form):
    def f(eng, names, own):
        w = []
        for i, a in enumerate(own):
            ok = {
                "int64": ["int64", "float64", "large_string", "duration/s", "uint64"],
                "double": ["float64", "float32", "string", "large_string"],
                "timestamp[ms]": ["timestamp/us", "timestamp/ns", "date32", "date64", "int64", "timestamp/us/UTC"],
                "large_string": ["string", "large_string", "large_binary"],
                "null": ["int64", "string", "timestamp/s", "bool_", "date32"],
            }.get(a.t.n, ["large_string"])
            w.append(type_of(eng, ok[(i + shift) % len(ok)].split("/")))
        if form == "dict":
            picked = [x if (i + shift) % 3 else None for i, x in enumerate(w)]
            d = {names[i]: x for i, x in reversed(list(enumerate(picked))) if x is not None}
            if shift % 2:
                d["nobody"] = type_of(eng, ("int64",))
            return d, picked, False
        return (w if form == "list" else tuple(w)), w, False

    return f


def wrong_length(k, form):
    def f(eng, names, own):
        t = [a.t for a in own]
        t = t[:k] if k < 0 else t + t[:1] * k if k else []
        return (t if form == "list" else tuple(t)), [None] * len(own), True

    return f


def c22(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    names = [f"name{i}" for i in range(len(LABELS) + 1)]
    far = (2, 9, 10, 26, 30, 52, 53, 60, 99)
    for fmt in FMTS:
        for ty in TYPES:
            for j in range(len(LABELS)):
                for form in ("dict", "list", "tuple")[: 2 if tier == "quick" else 3]:
                    two = sorted((j, (j + 1) % len(LABELS)))
                    explore(eng, rep, types_run(fmt, True, None, one_type(two.index(j), ty, form), rep, f"the type of column {LABELS[j]} by {form}", only=two), "types", f"{fmt}, {ty}, {j}, {form}")
                # the only column besides one of texts
                explore(eng, rep, types_run(fmt, True, None, every_type(ty), rep, "one type for all", only=(j,)), "types", f"{fmt}, {ty} for all, {j}")
            explore(eng, rep, types_run(fmt, True, None, every_type(ty), rep, "one type for all"), "types", f"{fmt}, {ty} for all")
        for shift in range(12):
            for form in ("dict", "list", "tuple"):
                for header, at, kw in ((True, None, None), (0, far, None), (names, None, {"skip_rows_after_header": 1}), (True, far, {"row_filters": ["^(fraction|date)$"]}), (names, far, {"row_filters": [0]}), (True, None, {"lookup_head": "^whole$"})):
                    explore(eng, rep, types_run(fmt, header, at, some_types(shift, form), rep, f"types by {form}", kw), "types", f"{fmt}, {shift}, {form}, {header}, {kw}")
        for k in (-1, -3, 0, 1, 2):
            for form in ("list", "tuple"):
                for header in (True, 0, names):
                    explore(eng, rep, types_run(fmt, header, None, wrong_length(k, form), rep, "a wrong number of types"), "length", f"{fmt}, {k}, {form}, {header}")
    return rep.finish(
        "the read function is interpreted on sheets of both formats with columns of whole numbers, fractions, dates, texts and "
        "nothing, with every form of the argument and twenty types (parameters included); the table is compared, type by type "
        "and value by value, with the casts of the table read without types, and a column whose cast fails has to be named.",
        minimum=500,
    )

"""C25, C26, C27: archives, parts and the sheets of a workbook."""
from __future__ import annotations

import struct

from sa.engine import ExtV, StopConsume
from sa.models import Deadlock, StreamV, World
from sa.report import Report

from .biff import explore
from .common import AnalysisBroken, PyExc, Undecided, Violation
from .readers import *  # noqa: F403
from .readers import XLSB, XLSX, build, cells, consts, el, expect_cells, leave, make, rels_events, text, wstr
from .sheets import row_of, table
from .xlsb import STYLES as BSTYLES
from .xlsx import STYLES as XSTYLES
from .xlsx import sheet_events

FMTS = (XLSX, XLSB)


def exc(kind, what="fault"):
    return ExcV({"ExpatError": ExtV("pyexpat.ExpatError"), "BadZipFile": ExtV("zipfile.BadZipFile"), "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError, "ValueError": ValueError}[kind], (what,))


def failing(eng, src, kind, what):
    """The part, failing before one of its records or events (or not at all)."""
    src = list(src)
    k = eng.choose(len(src) + 2, f"record of {what} before which reading fails", [*range(len(src) + 1), "never"])

    return Failing(src, k, kind)


class Failing:
    def __init__(self, evs, k, kind):
        self.evs, self.k, self.kind = evs, k, kind

    def __iter__(self):
        for i, x in enumerate(self.evs):
            if i == self.k:
                raise PyExc(exc(self.kind))
            yield x
        if self.k == len(self.evs):
            raise PyExc(exc(self.kind))

    def __call__(self, e, cb):
        for x in self:
            cb(x)


def sheet_of(fmt, rows):
    if fmt == XLSX:
        return sheet_events([row_of(fmt, k, i)[0] for i, k in enumerate(rows)])
    return [x for i, k in enumerate(rows) for x in [(0, b"\0" * 25), *row_of(fmt, k, i)[0]]] + [(402, b"")]


def part_name(fmt, what):
    ext = "xml" if fmt == XLSX else "bin"
    return {
        "rels": f"xl/_rels/workbook.{ext}.rels",
        "workbook": f"xl/workbook.{ext}",
        "styles": f"xl/styles.{ext}",
        "shared": f"xl/sharedStrings.{ext}",
        "sheet": f"xl/worksheets/sheet1.{ext}",
    }[what]


class Scene:
    """An open workbook with a fault in one of its parts."""

    def __init__(self, eng, fmt, part=None, kind="ExpatError", missing=None, damaged=None, rows=("kept", "null", "kept"), enter=True, names=None, **kw):
        styles = XSTYLES if fmt == XLSX else BSTYLES
        shared, _ = table(eng, fmt, ("text", "error"))
        self.file = StreamV(eng, "of the caller")
        drop = []
        if missing:
            drop.append(part_name(fmt, missing))

        def before(w):
            if part:
                n = part_name(fmt, part)
                w.parts[n] = failing(eng, w.parts[n], kind, part)
            if damaged:

                def fail(e, name):
                    if name == (None if damaged == "archive" else part_name(fmt, damaged)):
                        raise PyExc(exc(kind))

                w.fail_open = fail

        self.eng, self.fmt = eng, fmt
        self.w, self.wb = make(eng, fmt, sheet_of(fmt, rows), shared=shared, styles=(styles[0][:2], styles[1][:3]), drop=drop, file=self.file, enter=enter, names=names, before=before, **kw)

    def closed(self, what, archives=False):
        w = self.w
        for p in w.opened:
            if not p.closed:
                raise Violation(f"{self.fmt}: {what}: {p!r} is left open", p.where)
        if archives:
            for z in w.archives:
                if not z.closed:
                    raise Violation(f"{self.fmt}: {what}: {z!r} is left open", z.where)
        if self.file.closed:
            raise Violation(f"{self.fmt}: {what}: the stream of the caller is closed", self.file.where)


def attempt(f):
    """The exception that came out, or None."""
    try:
        f()
    except PyExc as e:
        return e.val
    return None


def session(eng, sc, use, what, kw=()):
    """``with workbook: use()``; everything is closed before an exception of ``use`` is passed on."""
    e = attempt(use)
    sc.closed(what)
    a = [None, None, None] if e is None else [e.cls, e, None]
    r = eng.call(eng.getattr(sc.wb, "__exit__"), a, {})
    sc.closed(f"{what}, after leaving the workbook", archives=True)
    if e is not None and r is not None and eng.truth(r):
        raise Violation(f"{sc.fmt}: {what}: leaving the workbook swallows {e!r}")
    return e


def properties_run(fmt, prop, part, kind):
    def run(eng):
        sc = Scene(eng, fmt, part, kind)
        session(eng, sc, lambda: eng.getattr(sc.wb, prop), f"{prop} read, {part} failing with {kind}")

    return run


def absent_run(fmt, missing=None, damaged=None, kind="BadZipFile", sheet=0):
    def run(eng):
        sc = Scene(eng, fmt, missing=missing, damaged=damaged, kind=kind, enter=False)
        what = f"worksheet read, missing part: {missing}, damaged part: {damaged}, sheet {sheet!r}"
        if attempt(lambda: eng.call(eng.getattr(sc.wb, "__enter__"), [], {})) is not None:
            sc.closed(f"{what}, not entered", archives=True)
            return
        session(eng, sc, lambda: cells(eng, sc.wb, sheet=sheet), what)

    return run


def iterate_run(fmt, part, kind, stop=None, null=None, callback=None, **kw):
    """The worksheet iterated to its end, to its failure or abandoned after ``stop`` cells."""

    def run(eng):
        calls = []

        def bad(e, a, k):
            calls.append(1)
            if len(calls) == limit + 1:
                raise PyExc(exc(kind))
            return False

        limit = eng.choose(6, "call that fails", range(6)) if null or callback else None
        more = {"null_values": Builtin("null predicate", bad)} if null else {}
        if callback:
            kw["row_callback"] = Builtin("row callback", bad)
        sc = Scene(eng, fmt, part, kind, **more)

        def each(c):
            n.append(1)
            if stop is not None and len(n) >= stop[0]:
                if stop[1] == "raise":
                    raise PyExc(exc(kind, "the consumer fails"))
                raise StopConsume

        n = []
        what = f"worksheet iterated, {part} failing with {kind}" if part else "worksheet iterated"
        if stop:
            what += f", {'abandoned' if stop[1] != 'raise' else 'consumer failing'} after {stop[0]} cells"
        try:
            session(eng, sc, lambda: cells(eng, sc.wb, each=each, **kw), what)
        except Deadlock:
            raise Undecided("the consumer waits forever (C10)") from None

    return run


def enter_run(fmt, case):
    def run(eng):
        other = XLSB if fmt == XLSX else XLSX
        missing = names = damaged = None
        if case == "no workbook part":
            missing = "workbook"
        elif case == "other format":
            names = ["[Content_Types].xml", part_name(other, "workbook")]
        elif case == "empty archive":
            names = []
        elif case == "not an archive":
            damaged = "archive"
        sc = Scene(eng, fmt, missing=missing, names=names, damaged=damaged, kind="BadZipFile", enter=False)
        e = attempt(lambda: eng.call(eng.getattr(sc.wb, "__enter__"), [], {}))
        if e is None:
            if case == "workbook":
                sc.closed("workbook entered")
                leave(eng, sc.wb)
            else:
                # accepted so far: the part is missed later
                attempt(lambda: cells(eng, sc.wb))
                leave(eng, sc.wb)
        sc.closed(f"entering a file that is {case}" if case != "workbook" else "workbook entered and left", archives=True)

    return run


class SeriesV(AbsVal):
    """A column about which nothing is known; adding or rendering may fail."""

    kind = "column"

    def __init__(self, fail):
        self.fail, self.rows = fail, []

    def v_truth(self, eng):
        return bool(self.rows)

    def v_len(self, eng):
        return max(self.rows) + 1 if self.rows else 0

    def v_getattr(self, eng, name):
        def f(e, a, k):
            if name == self.fail[0]:
                self.fail[1] -= 1
                if self.fail[1] < 0:
                    raise PyExc(exc(self.fail[2], f"{name} fails"))
            if name == "add":
                self.rows.append(e.getattr(a[0], "row"))
                return self.rows[-1]
            raise PyExc(exc("ValueError", "rendering fails"))

        return Builtin(name, f)


def read_run(fmt, case, kind="ValueError"):
    """The read function up to the moment the columns are rendered."""

    def run(eng):
        reader = eng.anchor("rxls.reader.common", "read")
        fail = ["add", eng.choose(3, "value whose adding fails", range(3)), kind] if case == "adding" else ["", 0, kind]
        eng.path.data["series"] = fail
        rows = () if case == "empty sheet" else ("kept", "null", "kept")
        names = {"no workbook part": ["[Content_Types].xml"], "empty archive": []}.get(case)
        part = case[1] if isinstance(case, tuple) and case[0] == "part" else None
        missing = case[1] if isinstance(case, tuple) and case[0] == "missing" else None
        damaged = "archive" if case == "not an archive" else case[1] if isinstance(case, tuple) and case[0] == "damaged" else None
        sc = Scene(eng, fmt, part, kind if part or damaged else "ValueError", missing=missing, damaged=damaged, rows=rows, enter=False, names=names)
        kw = {}
        if case == "row callback":
            calls = []
            limit = eng.choose(4, "call that fails", range(4))

            def bad(e, a, k):
                calls.append(1)
                if len(calls) == limit + 1:
                    raise PyExc(exc(kind))

            kw["row_callback"] = Builtin("row callback", bad)
        sheet = "No such" if case == "unknown sheet" else 5 if case == "sheet out of range" else 0
        try:
            e = attempt(lambda: eng.call(reader, [sc.file, sheet], kw))
        except Deadlock:
            raise Undecided("the consumer waits forever (C10)") from None
        sc.closed(f"read, {case}", archives=True)
        if e is None:
            raise Undecided("read does not end")
        if not sc.w.archives and damaged != "archive":
            raise Undecided("no archive is opened")

    return run


def c25(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    c = eng.anchor("rxls.series", "xl_series")
    kinds = ("ExpatError", "KeyboardInterrupt") if tier != "thorough" else ("ExpatError", "KeyboardInterrupt", "OSError", "BadZipFile", "ValueError")
    R = "resource-closed"
    for fmt in FMTS:
        for case in ("workbook", "no workbook part", "other format", "empty archive", "not an archive"):
            explore(eng, rep, enter_run(fmt, case), R, f"{fmt}, entering: {case}")
        for prop in ("sheets", "shared", "styles"):
            for kind in kinds:
                for part in {"sheets": ("rels", "workbook"), "shared": ("shared",), "styles": ("styles",)}[prop]:
                    explore(eng, rep, properties_run(fmt, prop, part, kind), R, f"{fmt}, {prop}, {part} failing with {kind}")
        for part in ("rels", "workbook", "styles", "shared", "sheet"):
            explore(eng, rep, absent_run(fmt, missing=part), R, f"{fmt}, {part} missing")
            for kind in kinds:
                explore(eng, rep, absent_run(fmt, damaged=part, kind=kind), R, f"{fmt}, {part} damaged")
        for sheet in ("No such", 7, -1):
            explore(eng, rep, absent_run(fmt, sheet=sheet), R, f"{fmt}, sheet {sheet!r}")
        for kind in kinds:
            for part in ("sheet", "shared", "styles"):
                explore(eng, rep, iterate_run(fmt, part, kind), R, f"{fmt}, {part} failing with {kind}")
                explore(eng, rep, iterate_run(fmt, part, kind, take_rows=1), R, f"{fmt}, {part} failing with {kind}, rows limited")
            for stop in (1, 2):
                explore(eng, rep, iterate_run(fmt, None, kind, stop=(stop, "raise")), R, f"{fmt}, consumer failing after {stop} cells")
            explore(eng, rep, iterate_run(fmt, None, kind, null=True), R, f"{fmt}, null predicate failing with {kind}")
            explore(eng, rep, iterate_run(fmt, None, kind, callback=True), R, f"{fmt}, row callback failing with {kind}")
        for stop in (1, 2):
            explore(eng, rep, iterate_run(fmt, None, "ValueError", stop=(stop, "close")), R, f"{fmt}, abandoned after {stop} cells")
            explore(eng, rep, iterate_run(fmt, "sheet", "ValueError", stop=(stop, "close")), R, f"{fmt}, failing, abandoned after {stop} cells")
        for kw in ({}, {"take_rows": 1}, {"skip_rows": 2}, {"skip_rows": 9}):
            explore(eng, rep, iterate_run(fmt, None, "ValueError", **kw), R, f"{fmt}, iterated to the end, {kw}")
    eng.hooks[c.qualname] = lambda e, a, k: SeriesV(e.path.data["series"])
    cases = ["whole", "adding", "empty sheet", "no workbook part", "empty archive", "not an archive", "unknown sheet", "sheet out of range", "row callback"]
    cases += [("part", p) for p in ("rels", "workbook", "styles", "shared", "sheet")]
    cases += [("missing", p) for p in ("rels", "sheet")]
    cases += [("damaged", p) for p in ("rels", "workbook", "styles", "shared", "sheet")]
    for fmt in FMTS:
        for case in cases:
            for kind in kinds:
                explore(eng, rep, read_run(fmt, case, kind), R, f"{fmt}, read, {case}, {kind}")
    return rep.finish(
        "Typestate of every archive, part and stream: __enter__, the properties and the worksheet iterators of both readers "
        "and the read function are interpreted with every part missing, damaged, or failing before every record or event, "
        "with callbacks, null predicates and consumers that raise and with iterators that are abandoned; whatever was opened "
        "must be closed when the operation ends, and the stream of the caller must not be.",
        minimum=400,
    )


# --------------------------------------------------------------------- C26

DECOYS = ("customXml/sharedStrings.{e}", "xl/externalLinks/styles.{e}", "docProps/app.xml", "xl/sharedStrings.{e}.rels", "xl/styles.{e}.bak", "sharedStrings.{e}", "styles.{e}")


def c26_run(fmt, shared, styles, decoys, order="usual"):
    def run(eng):
        K = consts(eng)
        ext = "xml" if fmt == XLSX else "bin"
        extra = {d.format(e=ext): [] for d in decoys}
        rows = ("kept", "none", "kept")
        if fmt == XLSX:
            sheet = sheet_events([[*el("c", el("v", text("5")), r="A1", s="1"), *el("c", el("v", text("6")), r="B1", s="4"), *el("c", el("v", text("0")), r="C1", t="s"), *el("c", el("v", text("x")), r="D1", t="str")]])
            v = lambda s: s.encode()  # noqa: E731
            kinds = [K["date"] if styles else K["text"], K["number"] if styles else K["text"], K["shared"], K["text"]]
            vals = [v("5"), v("6"), v("0"), v("x")]
        else:
            c = lambda rid, col, st, d: (rid, struct.pack("<II", col, st) + d)  # noqa: E731
            sheet = [(0, b"\0" * 25), c(5, 0, 1, b"\1" * 8), c(2, 1, 2, b"\2" * 4), c(7, 2, 0, b"\0" * 4), c(6, 3, 1, wstr("x")), (402, b"")]
            kinds = [K["date"] if styles else K["real"], K["rkdate"] if styles else K["rk"], K["shared"], K["text"]]
            vals = [b"\1" * 8, b"\2" * 4, b"\0" * 4, "x"]
        part = table(eng, fmt, ("text",))[0] if shared else None
        st = (XSTYLES if fmt == XLSX else BSTYLES) if styles else None
        what = f"{fmt}, {'with' if shared else 'without'} shared strings, {'with' if styles else 'without'} styles"

        def before(w):
            # the entries of an archive have no particular order
            if order == "reversed":
                w.names.reverse()
            elif order == "workbook first":
                w.names.sort(key=lambda n: n != f"xl/workbook.{ext}")

        w, wb = make(eng, fmt, sheet, shared=part, styles=st, extra=extra, before=before)
        try:
            n = eng.getattr(wb, "shared").v_len(eng)
            got = cells(eng, wb)
        except PyExc as e:
            raise Violation(f"{what}: reading fails with {e.val!r}", e.val.where) from None
        if n != (1 if shared else 0):
            raise Violation(f"{what}: the shared-string table has {n} entries")
        expect_cells(eng, what, got, [(0, i, k, x) for i, (k, x) in enumerate(zip(kinds, vals))])

    return run


def c26(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for fmt in FMTS:
        for shared in (True, False):
            for styles in (True, False):
                for decoys in ((), DECOYS, *[(d,) for d in DECOYS]):
                    explore(eng, rep, c26_run(fmt, shared, styles, decoys), "optional-part", f"{fmt}, shared {shared}, styles {styles}, {decoys}")
                for order in ("reversed", "workbook first"):
                    explore(eng, rep, c26_run(fmt, shared, styles, (), order), "optional-part", f"{fmt}, shared {shared}, styles {styles}, entries {order}")
    return rep.finish(
        "Both readers are interpreted on workbooks with and without the shared-strings and the styles part, with other parts "
        "of similar names; opening a part the archive does not hold raises KeyError in the model, and the cells and the table "
        "must be those of an empty table and of formats that are neither temporal nor numeric.",
        minimum=60,
    )


# --------------------------------------------------------------------- C27

SHEET, OTHERS = "worksheet", ("chartsheet", "dialogsheet", "http://schemas.microsoft.com/office/2006/relationships/xlMacrosheet", "theme", "macrosheet", "worksheetComments")
STRICT = "http://purl.oclc.org/ooxml/officeDocument/relationships/worksheet"

# name -> (sheets in workbook order, relationships, expected [(name, part)])
BOOKS = {
    "one sheet": ([("One", "rId1")], [("rId1", SHEET, "worksheets/sheet1.{e}")], [("One", "xl/worksheets/sheet1.{e}")]),
    "absolute target": ([("One", "rId1")], [("rId1", SHEET, "/xl/worksheets/sheet1.{e}")], [("One", "xl/worksheets/sheet1.{e}")]),
    "absolute target elsewhere": ([("One", "rId1")], [("rId1", SHEET, "/sheets/a.{e}")], [("One", "sheets/a.{e}")]),
    "target with xl of its own": ([("One", "rId1")], [("rId1", SHEET, "xl/worksheets/sheet1.{e}")], [("One", "xl/xl/worksheets/sheet1.{e}")]),
    "dots in targets": ([("One", "rId1"), ("Two", "rId2")], [("rId1", SHEET, "../xl/worksheets/a.{e}"), ("rId2", SHEET, "./worksheets/b.{e}")], [("One", "xl/worksheets/a.{e}"), ("Two", "xl/worksheets/b.{e}")]),
    "target outside of xl": ([("One", "rId1")], [("rId1", SHEET, "../other/a.{e}")], [("One", "other/a.{e}")]),
    "strict type": ([("One", "rId1")], [("rId1", STRICT, "worksheets/sheet1.{e}")], [("One", "xl/worksheets/sheet1.{e}")]),
    "order differs": (
        [("C", "rId1"), ("A", "rId10"), ("B", "rId2")],
        [("rId2", SHEET, "worksheets/sheet2.{e}"), ("rId10", SHEET, "worksheets/sheet1.{e}"), ("rId1", SHEET, "worksheets/sheet3.{e}")],
        [("C", "xl/worksheets/sheet3.{e}"), ("A", "xl/worksheets/sheet1.{e}"), ("B", "xl/worksheets/sheet2.{e}")],
    ),
    "other entries": (
        [("Chart", "rId5"), ("One", "rId1"), ("Macro", "rId7"), ("Dialog", "rId6"), ("Two", "rId2"), ("M", "rId8"), ("N", "rId9")],
        [("rId2", SHEET, "worksheets/sheet1.{e}"), ("rId1", SHEET, "worksheets/sheet2.{e}"), ("rId3", "theme", "theme/theme1.xml"), ("rId5", OTHERS[0], "chartsheets/sheet1.xml"), ("rId6", OTHERS[1], "dialogsheets/sheet1.xml"), ("rId7", OTHERS[2], "macrosheets/sheet1.xml"), ("rId8", OTHERS[4], "macrosheets/b.xml"), ("rId9", OTHERS[5], "c.xml")],
        [("One", "xl/worksheets/sheet2.{e}"), ("Two", "xl/worksheets/sheet1.{e}")],
    ),
    "no relationship": ([("Gone", "rId4"), ("One", "rId1"), ("None", "")], [("rId1", SHEET, "worksheets/sheet1.{e}"), ("rId44", SHEET, "worksheets/sheet2.{e}")], [("One", "xl/worksheets/sheet1.{e}")]),
    "no sheets": ([("Chart", "rId1")], [("rId1", OTHERS[0], "chartsheets/sheet1.xml")], []),
    "similar ids": ([("A", "rId1"), ("B", "RID1"), ("C", "rId11")], [("rId11", SHEET, "worksheets/c.{e}"), ("RID1", SHEET, "worksheets/b.{e}"), ("rId1", SHEET, "worksheets/a.{e}")], [("A", "xl/worksheets/a.{e}"), ("B", "xl/worksheets/b.{e}"), ("C", "xl/worksheets/c.{e}")]),
    "names": ([(" 1", "rId1"), ("Лист & <1>", "rId2"), ("0", "rId3"), ("one", "rId4"), ("One", "rId5"), ("\U0001f600", "rId6")], [(f"rId{i}", SHEET, f"worksheets/s{i}.{{e}}") for i in range(1, 7)], [(n, f"xl/worksheets/s{i}.{{e}}") for i, n in enumerate((" 1", "Лист & <1>", "0", "one", "One", "\U0001f600"), 1)]),
    "several": ([(f"S{i}", f"rId{i}") for i in range(12)], [(f"rId{i}", SHEET, f"worksheets/sheet{i}.{{e}}") for i in range(11, -1, -1)], [(f"S{i}", f"xl/worksheets/sheet{i}.{{e}}") for i in range(12)]),
    "shared target folder": ([("A", "rId1"), ("B", "rId2")], [("rId1", SHEET, "/xl/worksheets/sheet1.{e}"), ("rId2", SHEET, "worksheets/sheet2.{e}")], [("A", "xl/worksheets/sheet1.{e}"), ("B", "xl/worksheets/sheet2.{e}")]),
}


def marked(fmt, i):
    """A sheet whose one cell tells which it is."""
    if fmt == XLSX:
        return sheet_events([el("c", el("v", text(f"m{i}")), r="A1", t="str")])
    return [(0, b"\0" * 25), (6, b"\0" * 8 + wstr(f"m{i}")), (402, b"")]


def c27_run(fmt, name, ask):
    def run(eng):
        sheets, rels, want = BOOKS[name]
        ext = "xml" if fmt == XLSX else "bin"
        f = lambda s: s.format(e=ext)  # noqa: E731
        want = [(n, f(p)) for n, p in want]
        extra = {p: marked(fmt, i) for i, (_, p) in enumerate(want)}
        drop = [] if f"xl/worksheets/sheet1.{ext}" in extra else [f"xl/worksheets/sheet1.{ext}"]
        w, wb = make(eng, fmt, marked(fmt, -1), sheets=sheets, rels=[(r, t, f(p)) for r, t, p in rels], extra=extra, drop=drop)
        what = f"{fmt}, {name}"
        if ask is None:
            try:
                got = eng.getattr(wb, "sheets")
            except PyExc as e:
                raise Violation(f"{what}: the sheets fail to read with {e.val!r}", e.val.where) from None
            if not isinstance(got, DictV):
                raise Undecided(f"sheets: {short(got)}")
            items = list(got.items.values())
            if not all(is_conc(k) and is_conc(v) for k, v in items):
                raise Undecided(f"sheets: {short(got, 100)}")
            if [tuple(x) for x in items] != want:
                raise Violation(f"{what}: the sheets are {items!r}, not {want!r}")
            return
        if isinstance(ask, int):
            i = ask if 0 <= ask < len(want) else None
            err = IndexError
        else:
            i = next((i for i, (n, _) in enumerate(want) if n == ask), None)
            err = KeyError
        try:
            got = cells(eng, wb, sheet=ask)
        except PyExc as e:
            if i is None and e.val.cls is err:
                return
            raise Violation(f"{what}: sheet {ask!r} fails with {e.val!r}" + (f" instead of {err.__name__}" if i is None else ""), e.val.where) from None
        if i is None:
            raise Violation(f"{what}: there is no sheet {ask!r}, but no {err.__name__} is raised")
        v = f"m{i}"
        expect_cells(eng, f"{what}: sheet {ask!r}", got, [(0, 0, None, v.encode() if fmt == XLSX else v)])

    return run


def c27(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for fmt in FMTS:
        for name, (sheets, rels, want) in BOOKS.items():
            explore(eng, rep, c27_run(fmt, name, None), "sheet-found", f"{fmt}, {name}")
            asks = [*(n for n, _ in sheets), *range(-2, len(want) + 2), "Unknown", "", "xl/worksheets/sheet1.xml", "rId1"]
            for ask in asks:
                explore(eng, rep, c27_run(fmt, name, ask), "sheet-found", f"{fmt}, {name}, sheet {ask!r}")
    return rep.finish(
        "The sheet tables and worksheet lookups of both readers are interpreted on workbooks with relative, absolute and dotted "
        "targets, other kinds of sheets, missing relationships, similar ids and names and differing orders; every sheet asked "
        "for by name or position must be the part its relationship names, or raise KeyError or IndexError.",
        minimum=300,
    )

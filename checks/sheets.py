"""C07, C08, C12, C13, C14: shared strings, nulls, rows and columns of worksheets in both formats."""
from __future__ import annotations

import itertools
import struct

from sa.bits import BitSym, ByteStr, Seg, lift
from sa.report import Report

from .biff import explore
from .common import PyExc, Undecided, Violation
from .readers import *  # noqa: F403
from .readers import NUMBA, XLSB, XLSX, build, cells, consts, el, expect_cells, field, is_null, make, null_arg, tail, text, text_of, wstr, xstring
from .xlsb import STYLES as BSTYLES
from .xlsx import STYLES as XSTYLES
from .xlsx import encoded, joined, piece, runs_of, same_item, shared_items, sheet_events, t_el, texts

# --------------------------------------------------------------------- shared strings

NULLS = ("-", "n/a", "0", "1", "2")
MODES = (None, (), NULLS, "callable")


def xsi(eng, kind, tag):
    """An item of an XLSX table: events and text."""
    if kind == "plain":
        p = piece(f"item {tag}")
        return el("si", t_el(p)), joined(eng, p)
    if kind == "rich":
        ps = texts(2, f"item {tag} run")
        return el("si", runs_of((1, 1), ps, gap="\n")), joined(eng, *ps)
    if kind == "hints":
        ps = texts(1, f"item {tag} text")
        return el("si", runs_of((1,), ps, hints=True)), joined(eng, *ps)
    if kind == "none":
        return el("si"), ""
    if kind == "empty":
        return el("si", el("t")), ""
    if kind == "blank":
        return el("si", t_el("  ")), ""
    if kind == "error":
        return el("si", t_el("#N/A")), "#N/A"
    if kind == "null":
        return el("si", t_el("-")), "-"
    if kind == "same":
        return el("si", t_el("same")), "same"
    return el("si", t_el(f"text {tag}")), f"text {tag}"


def bsi(eng, kind, tag):
    """An item of an XLSB table: record and text."""
    if kind in ("plain", "rich", "hints"):
        flags = {"plain": 0, "rich": 1, "hints": 2}[kind]
        parts, n, seg = xstring(eng, f"item {tag}", prefix=(flags,))
        rest = [] if kind == "plain" else [tail(f"runs {tag}", 12)]
        return (19, ByteStr(eng, [*parts, *rest])), text_of(eng, seg)
    s = {"none": "", "empty": "", "blank": "  ", "error": "#N/A", "null": "-", "same": "same"}.get(kind, f"text {tag}")
    return (19, b"\0" + wstr(s)), s


def table(eng, fmt, kinds):
    """Shared-strings part with such items, and their texts."""
    out, want = [], []
    for i, k in enumerate(kinds):
        x, t = (bsi if fmt == XLSB else xsi)(eng, k, i)
        out.append(x)
        want.append(t)
    if fmt == XLSB:
        return [(159, struct.pack("<II", len(out), len(out))), *out, (160, b"")], want
    return el("sst", *out, count="9"), want


ITEMS = ("plain", "rich", "hints", "none", "empty", "blank", "error", "null", "same")


def c07_run(fmt, kinds, mode):
    def run(eng):
        part, want = table(eng, fmt, kinds)
        w, wb = make(eng, fmt, [], shared=part, null_values=null_arg(eng, mode))
        what = f"{fmt}, items {kinds}, null values {mode}"
        try:
            items = shared_items(eng, wb)
        except PyExc as e:
            raise Violation(f"{what}: the table fails to read with {e.val!r}", e.val.where) from None
        if len(items) != len(want):
            raise Violation(f"{what}: the table has {len(items)} entries for {len(want)} items: {short(items, 200)}")
        for i, (g, t) in enumerate(zip(items, want)):
            if not same_item(eng, g, t, mode):
                raise Violation(f"{what}: entry {i} is {short(g, 100)} where item {i} is {short(t, 100)}")

    return run


BIG = 66_000


def big_table(fmt, null_at):
    """More items than two bytes can number; the text of item i is ``v<i>`` but for a null-listed one."""
    txt = lambda i: "-" if i == null_at else f"v{i}"  # noqa: E731
    if fmt == XLSB:
        return [(19, b"\0" + wstr(txt(i))) for i in range(BIG)]
    return el("sst", [x for i in range(BIG) for x in el("si", t_el(txt(i)))])


def c07_big(fmt):
    def run(eng):
        at = 65_536 + 258
        w, wb = make(eng, fmt, [], shared=big_table(fmt, at), null_values=ListV(["-"]))
        items = shared_items(eng, wb)
        if len(items) != BIG:
            raise Violation(f"{fmt}: a table of {BIG} items has {len(items)} entries")
        for i, g in enumerate(items):
            if i != at and g != f"v{i}":
                raise Violation(f"{fmt}: entry {i} of a table of {BIG} items is {short(g, 60)}")

    return run


def c08_big(fmt):
    def run(eng):
        K = consts(eng)
        at = 65_536 + 258
        idx = [2, 258, at, at - 1, at + 1, 0]
        if fmt == XLSB:
            sheet = [(0, b"\0" * 25), *((7, struct.pack("<III", c, 0, i)) for c, i in enumerate(idx)), (402, b"")]
        else:
            sheet = sheet_events([[x for c, i in enumerate(idx) for x in el("c", el("v", text(str(i))), r="ABCDEF"[c] + "1", t="s")]])
        w, wb = make(eng, fmt, sheet, shared=big_table(fmt, at), null_values=ListV(["-"]))
        got = cells(eng, wb)
        val = lambda i: struct.pack("<I", i) if fmt == XLSB else str(i).encode()  # noqa: E731
        expect_cells(eng, f"{fmt}: a table of {BIG} items, item {at} null", got, [(0, c, K["shared"], val(i)) for c, i in enumerate(idx) if i != at])

    return run


def c12_big(fmt, keep):
    def run(eng):
        rows = ["kept"] + ["none"] * BIG + ["kept", "null", "kept"]
        if fmt == XLSB:
            sheet = [x for i, k in enumerate(rows) for x in [(0, b"\0" * 25), *row_of(fmt, k, i)[0]]] + [(402, b"")]
        else:
            sheet = sheet_events([row_of(fmt, k, i)[0] for i, k in enumerate(rows)])
        w, wb = make(eng, fmt, sheet)
        got = cells(eng, wb, take_rows_non_empty=keep)
        want = [i for i, k in enumerate(rows) if k == "kept"] if keep else [0, 1, 2]
        expect_cells(eng, f"{fmt}: {BIG} empty rows, {'kept' if keep else 'dropped'}", got, [(r, 1, None, None) for r in want])

    return run


def big(eng, rep, run, rule, label):
    limit, eng.step_limit = eng.step_limit, 10**9
    explore(eng, rep, run, rule, label)
    eng.step_limit = limit


def c07(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for fmt in (XLSX, XLSB):
        big(eng, rep, c07_big(fmt), "entry-per-item", f"{fmt}, {BIG} items")
    for fmt in (XLSX, XLSB):
        for mode in MODES:
            lists = [("text", k, "text2") for k in ITEMS] + [(k, "text") for k in ITEMS] + [("text", k) for k in ITEMS]
            lists += [("same", "same", "text", "same"), (), ("plain",)]
            if mode in (None, NULLS) or tier == "thorough":
                lists += [(a, b, "text") for a, b in itertools.product(ITEMS, ITEMS) if (a != "plain") + (b != "plain") > (tier != "thorough")]
            for kinds in lists:
                explore(eng, rep, c07_run(fmt, kinds, mode), "entry-per-item", f"{fmt}, items {kinds}, null values {mode}")
    return rep.finish(
        "The shared-string tables of both readers are interpreted on parts of one to four items of every kind (plain, rich, "
        "phonetic, without text, empty, blank, error, null-listed, repeated) with symbolic texts and every form of null "
        "values; the table must have one entry per item, entry i standing for item i.",
        minimum=300,
    )


# --------------------------------------------------------------------- nulls


def c08_run(fmt, what, mode, before, kinds=("plain", "text", "error")):
    """One cell with a text or index; ``before``: the cells read before it."""

    def run(eng):
        K = consts(eng)
        part, items = table(eng, fmt, (*kinds, "text"))
        label = f"{fmt}: {what} cell ({before}), null values {mode}"
        if fmt == XLSX:
            pre = {"first": [], "after a cell": el("c", el("v", text("zz")), r="A1", t="str"), "after an index": el("c", el("v", text("3")), r="A1", t="s")}[before]
            p = piece("value")
            t = {"text": "str", "inline": "inlineStr", "index": "s", "untyped": None, "error": "e"}[what]
            at = {"r": "B1"} if t is None else {"r": "B1", "t": t}
            body = el("is", t_el(p)) if what == "inline" else el("v", text(p))
            part_sheet = sheet_events([[*pre, ("start", "c", at), *body, ("end", "c")], el("c", el("v", text("zz")), r="A2", t="str")])
            val = joined(eng, p)
        else:
            c, cb = b"\1\0\0\0" + b"\0" * 4, None
            pre = {"first": [], "after a cell": [(6, b"\0" * 8 + wstr("zz"))], "after an index": [(7, b"\0" * 8 + b"\3\0\0\0")]}[before]
            if what == "index":
                s, vb = field(eng, "index", 4, 0, 5)
                rec = (7, ByteStr(eng, [*(lift(eng, x) for x in c), *vb]))
                val = s
            else:
                parts, n, seg = xstring(eng, "value")
                rec = ({"text": 6, "formula": 8}[what], ByteStr(eng, [*(lift(eng, x) for x in c), *parts, tail()]))
                val = text_of(eng, seg)
            part_sheet = [(0, b""), *pre, rec, (0, b""), (6, b"\0" * 8 + wstr("zz")), (402, b"")]
        w, wb = make(eng, fmt, part_sheet, shared=part, styles=None, null_values=null_arg(eng, mode))
        try:
            got = cells(eng, wb)
        except PyExc as e:
            raise Violation(f"{label}: fails with {e.val!r}", e.val.where) from None
        zz = encoded(eng, "zz") if fmt == XLSX else "zz"
        znull = is_null(eng, "zz", mode)
        want = []
        if before == "after a cell":
            want += [] if znull else [(0, 0, K["text"], zz)]
        elif before == "after an index" and not is_null(eng, items[3], mode):
            want += [(0, 0, K["shared"], None)]
        optional = None
        if what == "index":
            if fmt == XLSX:
                if eng.truth(val):
                    i = next((i for i in range(len(items)) if eng.truth(eng.compare("Eq", val, str(i)))), None)
                    cell = (0, 1, K["shared"], encoded(eng, val))
                else:
                    cell = None
            else:
                i = next((i for i in range(len(items)) if val.decide_eq(i)), None)
                cell = (0, 1, K["shared"], ByteStr(eng, vb))
            if cell is not None:
                if i is not None and is_null(eng, items[i], mode):
                    cell = None
                elif fmt == XLSX and i is not None and not eng.truth(items[i]):
                    optional = cell
                    cell = None
        else:
            blank = fmt == XLSX and not eng.truth(val)
            cell = None if blank or is_null(eng, val, mode) else (0, 1, K["text"], encoded(eng, val) if fmt == XLSX else val)
        if cell is not None:
            want.append(cell)
        tail_ = [] if znull else [(1, 0, K["text"], zz)]
        if optional is not None and len(got) == len(want) + 1 + len(tail_):
            want.append(optional)
        expect_cells(eng, label, got, want + tail_)

    return run


def c08(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for fmt in (XLSX, XLSB):
        big(eng, rep, c08_big(fmt), "null-text", f"{fmt}, {BIG} items")
    for fmt, whats in ((XLSX, ("text", "inline", "untyped", "index", "error")), (XLSB, ("text", "formula", "index"))):
        for what in whats:
            for mode in MODES:
                for before in ("first", "after a cell", "after an index"):
                    kinds = [("plain", "text", "error")]
                    if what == "index":
                        kinds += [("text", "plain", "null"), ("error", "null", "plain")]
                    for ks in kinds:
                        explore(eng, rep, c08_run(fmt, what, mode, before, ks), "null-text", f"{fmt}, {what} cell, {before}, items {ks}, null values {mode}")
    return rep.finish(
        "Both readers are interpreted on sheets with a cell holding a symbolic text or a symbolic shared-string index (into a "
        "table with a symbolic text) as first or later cell, for absent, empty, listed and callable null values; the cell must "
        "be dropped exactly when its text is one of the error texts or satisfies the null values.",
        minimum=300,
    )


# --------------------------------------------------------------------- rows

ROWS = ("none", "kept", "null", "skipped", "blank", "null item", "null and kept", "kept and null")


# the value cells of both formats: type and text, record and data
XCELLS = {"text": ("str", "x"), "inline": ("inlineStr", "x"), "index": ("s", "0"), "number": ("n", "1"), "untyped": (None, "2"), "boolean": ("b", "1"), "null text": ("str", "#N/A"), "null item": ("s", "1"), "error": ("e", "#REF!")}
BCELLS = {"rk": (2, b"\1\2\3\4"), "bool": (4, b"\1"), "real": (5, b"\0" * 8), "text": (6, None), "index": (7, b"\0" * 4), "formula text": (8, None), "formula number": (9, b"\0" * 8 + b"\0\0"), "formula bool": (10, b"\0\0\0"), "null text": (6, ""), "null formula": (8, ""), "null item": (7, b"\1\0\0\0")}


def flavours(fmt):
    return list(XCELLS if fmt == XLSX else BCELLS)


def one_cell(fmt, flavour, col, r):
    if fmt == XLSX:
        t, v = XCELLS[flavour]
        at = {"r": letters(col) + r} if t is None else {"r": letters(col) + r, "t": t}
        body = el("is", el("t", text(v))) if t == "inlineStr" else el("v", text(v))
        return [("start", "c", at), *body, ("end", "c")]
    rid, d = BCELLS[flavour]
    if d in (None, ""):
        d = wstr("x" if d is None else "#N/A") + b"\0\0"
    return [(rid, struct.pack("<II", col, 0) + d)]


def row_of(fmt, kind, i):
    """Content of a row and the columns of its kept cells."""
    r = str(i + 1)
    if isinstance(kind, tuple):  # flavours of the cells and whether their column is skipped
        return [x for f, skipped in kind for x in one_cell(fmt, f, 4 if skipped else 1, r)], sum(not sk and "null" not in f and f != "error" for f, sk in kind)
    if fmt == XLSX:
        kept = el("c", el("v", text("x")), r="B" + r, t="str")
        null = el("c", el("v", text("#N/A")), r="C" + r, t="e")
        return {
            "none": ([], 0),
            "kept": (kept, 1),
            "null": (null, 0),
            "skipped": (el("c", el("v", text("y")), r="E" + r, t="str"), 0),
            "blank": (el("c", r="B" + r, s="1"), 0),
            "null item": (el("c", el("v", text("1")), r="B" + r, t="s"), 0),
            "null and kept": (el("c", el("v", text("#N/A")), r="A" + r, t="str") + kept, 1),
            "kept and null": (kept + null, 1),
        }[kind]
    cell = lambda rid, col, data: (rid, struct.pack("<II", col, 0) + data)  # noqa: E731
    kept = cell(2, 1, b"\1\2\3\4")
    null = cell(6, 2, wstr("#N/A"))
    return {
        "none": ([], 0),
        "kept": ([kept], 1),
        "null": ([null], 0),
        "skipped": ([cell(5, 4, b"\0" * 8)], 0),
        "blank": ([cell(1, 1, b"")], 0),
        "null item": ([cell(7, 1, struct.pack("<I", 1))], 0),
        "null and kept": ([cell(8, 0, wstr("#N/A") + b"\0\0"), kept], 1),
        "kept and null": ([kept, null], 1),
    }[kind]


def rows_run(fmt, rows, keep, S, T, dense=True):
    """``S``/``T``: numbers or None (symbolic)."""

    def run(eng):
        K = consts(eng)
        part, _ = table(eng, fmt, ("text", "error"))
        s = S if S is not None else number(eng, "skip_rows")
        t = T if T is not None else number(eng, "take_rows")
        contents = [row_of(fmt, k, i) for i, k in enumerate(rows)]
        if fmt == XLSX:
            sheet = sheet_events([c for c, _ in contents])
        else:
            sheet = [(145, b"")] + [x for c, _ in contents for x in [(0, b"\0" * 25), *c]] + [(402, b"")]
        w, wb = make(eng, fmt, sheet, shared=part, styles=XSTYLES if fmt == XLSX else BSTYLES)
        label = f"{fmt}: rows {rows}, empty rows {'kept' if keep else 'dropped'}, skip_rows={show(eng, s)}, take_rows={show(eng, t)}"
        kw = {}
        if S != 0:
            kw["skip_rows"] = s
        if T != 0:
            kw["take_rows"] = t
        try:
            got = cells(eng, wb, take_rows_non_empty=keep, skip_cols=ListV([4]), **kw)
        except PyExc as e:
            raise Violation(f"{label}: fails with {e.val!r}", e.val.where) from None
        want = []
        n = 0
        unlimited = eng.truth(eng.compare("Eq", t, 0))
        for j, (_, kept) in enumerate(contents):
            if eng.truth(eng.compare("Gt", s, j)):
                continue
            if kept and (unlimited or eng.truth(eng.compare("GtE", t, n))):
                want.append((n, 1, None, None))
            if kept or keep:
                n += 1
        label = f"{fmt}: rows {rows}, empty rows {'kept' if keep else 'dropped'}, skip_rows={show(eng, s)}, take_rows={show(eng, t)}"
        expect_cells(eng, label, got, want)

    return run


def number(eng, name):
    s = BitSym(eng, name, 20)
    return norm_aff(s.value().v_aff())


def show(eng, x):
    if isinstance(x, int):
        return x
    s = eng.path.data["bitsyms"][x]
    return s.lo if s.lo == s.hi else f"{s.lo}..{s.hi if s.hi < 0xFFFFF else ''}"


def c12(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    n = 4 if tier == "thorough" else 3
    for fmt in (XLSX, XLSB):
        for keep in (True, False):
            big(eng, rep, c12_big(fmt, keep), "row-number", f"{fmt}, {BIG} empty rows, keep {keep}")
            for rows in itertools.product(ROWS, repeat=n):
                if n == 3 or len(set(rows)) < 4:
                    explore(eng, rep, rows_run(fmt, (*rows, "kept"), keep, 0, 0), "row-number", f"{fmt}, rows {rows}, keep {keep}")
            for rows in itertools.product(("none", "kept", "null"), repeat=n):
                explore(eng, rep, rows_run(fmt, (*rows, "kept", "none"), keep, None, 0), "row-number", f"{fmt}, rows {rows}, keep {keep}, skip_rows symbolic")
            one = [((f, sk),) for f in flavours(fmt) for sk in (False, True)]
            one += [((f, True), (g, sk)) for f in flavours(fmt) for g in flavours(fmt) for sk in ((False, True) if g in (flavours(fmt)[0], "null text") else ()) if sk or "null" in g]
            one += [((f, False), (g, True)) for f in flavours(fmt) for g in (flavours(fmt) if tier == "thorough" else flavours(fmt)[:2])]
            for k in one:
                for rows in ((k, "kept"), ("kept", k, "none", k, "kept")):
                    explore(eng, rep, rows_run(fmt, rows, keep, 0, 0), "row-number", f"{fmt}, rows {rows}, keep {keep}")
    return rep.finish(
        "Both readers are interpreted on sheets of four or five rows of every kind (no cells, kept, null-listed, only skipped "
        "columns, blank, null shared item), with empty rows kept or dropped and a symbolic skip_rows; the row numbers of the "
        "cells are compared with consecutive numbering.",
        minimum=500,
    )


def c13(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    n = 5 if tier == "thorough" else 4
    for fmt in (XLSX, XLSB):
        for keep in (True, False):
            for rows in itertools.product(("none", "kept", "null"), repeat=n):
                if n == 4 and rows.count("null") > 1:
                    continue
                explore(eng, rep, rows_run(fmt, (*rows, "kept"), keep, None, None), "rows-selected", f"{fmt}, rows {rows}, keep {keep}")
            for f in flavours(fmt):
                for sk in (False, True):
                    k = ((f, sk),)
                    for rows in ((k, k, "kept"), ("kept", k, "none", k)):
                        for S, T in itertools.product((0, 1, 2), (0, 1)):
                            explore(eng, rep, rows_run(fmt, rows, keep, S, T), "rows-selected", f"{fmt}, rows {rows}, keep {keep}, skip_rows={S}, take_rows={T}")
    return rep.finish(
        "Both readers are interpreted on sheets of five rows (with and without cells, null-listed) with symbolic skip_rows and "
        "take_rows; the cells and row numbers they yield are compared with the rows the property selects, for every order of "
        "skip_rows, take_rows and the row positions.",
        minimum=500,
    )


# --------------------------------------------------------------------- columns


def letters(i):
    s = ""
    i += 1
    while i:
        i, r = divmod(i - 1, 26)
        s = chr(65 + r) + s
    return s


ROWNUM = ("1", "7", "10", "99", "100", "2047", "65536", "1048576")


def c14_xlsx(cols, skip, rep, rule, flavour="text"):
    label = f"{letters(cols[0])} to {letters(cols[-1])}"

    def run(eng):
        evs = []
        for k, i in enumerate(cols):
            evs += one_cell(XLSX, flavour, i, ROWNUM[k % len(ROWNUM)])
        w, wb = make(eng, XLSX, sheet_events([evs]), shared=table(eng, XLSX, ("text",))[0])
        kw = {} if skip is None else {"skip_cols": skip_arg(skip)}
        try:
            got = cells(eng, wb, limit=len(cols) + 1, **kw)
        except PyExc as e:
            raise Violation(f"columns {label}: fails with {e.val!r}", e.val.where) from None
        want = [i for i in cols if skip is None or i not in skip]
        if any(not isinstance(g[1], int) for g in got):
            raise Undecided("symbolic column")
        nums = [g[1] for g in got]
        for g, x in zip(nums, want):
            if g != x:
                raise Violation(f"xlsx, skip_cols={skip}: the cell of column {letters(x)} (number {x}) is numbered {g}" if not skip or g not in skip else f"xlsx, skip_cols={skip}: column {g} is yielded")
        if len(nums) != len(want):
            raise Violation(f"xlsx, skip_cols={skip}: {len(nums)} cells are yielded for {len(want)} columns")
        rep.ok(rule, len(cols))

    return run


def skip_arg(skip):
    return skip if isinstance(skip, (tuple, range, frozenset)) else ListV(skip)


def c14_xlsb(skip, rid):
    def run(eng):
        c, cb = field(eng, "column", 4, 0, 0x3FFF)
        rest = {2: b"\0" * 4 + b"\1\2\3\4", 6: b"\0" * 4 + wstr("x"), 5: b"\0" * 12, 4: b"\0" * 4 + b"\1", 7: b"\0" * 8, 8: b"\0" * 4 + wstr("x"), 9: b"\0" * 12, 10: b"\0" * 5}[rid]
        rec = (rid, ByteStr(eng, [*cb, *(lift(eng, x) for x in rest)]))
        part, _ = table(eng, XLSB, ("text",))
        w, wb = make(eng, XLSB, [(0, b""), rec, (402, b"")], shared=part)
        kw = {} if skip is None else {"skip_cols": skip_arg(skip)}
        try:
            got = cells(eng, wb, **kw)
        except PyExc as e:
            raise Violation(f"xlsb, skip_cols={skip}: fails with {e.val!r}", e.val.where) from None
        want = [] if skip and any(c.decide_eq(x) for x in skip) else [(0, c.value(), None, None)]
        expect_cells(eng, f"xlsb record {rid}, skip_cols={skip}, column {c.lo}..{c.hi}", got, want)

    return run


SKIPS = (None, [], [0], [25, 26], (3, 700, 16383), [1, 0, 2], range(20, 30), frozenset((5, 256)))


def c14(pid, tier, repo):
    rep = Report(pid, tier, repo)
    some = [*range(60), *range(250, 262), *range(695, 735), 1023, 1024, 16382, 16383]
    for un in (PLAIN, NUMBA):
        eng = build(repo, un)
        eng.step_limit = 20_000_000
        every = list(range(16384)) if un is PLAIN or tier == "thorough" else list(range(0, 16384, 5))
        for i in range(0, len(every), 1024):
            part = every[i : i + 1024]
            explore(eng, rep, c14_xlsx(part, None, rep, "column-reference"), "column-reference", f"{len(part)} column references")
        for skip in SKIPS:
            for f in XCELLS:
                if "null" not in f and f != "error":
                    explore(eng, rep, c14_xlsx(some, skip, rep, "skipped-column", f), "skipped-column", f"xlsx, {f} cells, skip_cols={skip}")
            if un is PLAIN:
                for rid in (2, 4, 5, 6, 7, 8, 9, 10):
                    explore(eng, rep, c14_xlsb(skip, rid), "skipped-column", f"xlsb record {rid}, skip_cols={skip}")
    return rep.finish(
        "iter_worksheet of the XLSX reader (plain and accelerated source) is interpreted on a row with a cell in each of the "
        "16384 columns, the reference given by its letters and varying row digits; that of the XLSB reader on a cell with a "
        "symbolic column; both with several forms of skip_cols. Numbers and omissions are compared with the 0-based numbering.",
        minimum=10000,
    )

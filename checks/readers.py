"""Abstract workbooks of both formats, for the checks of the readers."""
from __future__ import annotations

import struct

from sa.bits import BitsV, BitSym, ByteStr, Seg, differ, lift, symbols
from sa.engine import ExtV
from sa.models import Deadlock, World, install  # noqa: F401
from sa.values import *  # noqa: F403
from sa.values import Builtin, DictV, ExcV, ListV, Term

from .biff import hexes, same, to_bs
from .common import NUMBA, PLAIN, PyExc, Undecided, Violation, engine

ERRORS = (
    "#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA",
    "#ДЕЛ/0!", "#ЗНАЧ!", "#ССЫЛКА!", "#ИМЯ?", "#ЧИСЛО!", "#Н/Д",
)

REL = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
XLSB, XLSX = "xlsb", "xlsx"


def build(repo, unavailable=PLAIN):
    eng = engine(repo, unavailable)
    install(eng)
    eng.step_limit = 60_000
    return eng


def consts(eng):
    """Kinds of cells as the package numbers them."""
    g = lambda n: eng.anchor("rxls.constants", n)  # noqa: E731
    return {
        "text": g("TYPE_STRING") | g("REPR_PREPARED"),
        "shared": g("TYPE_STRING") | g("REPR_SHARED"),
        "number": g("TYPE_NUMERIC"),
        "date": g("TYPE_NUMERIC") | g("REPR_TEMPORAL"),
        "real": g("TYPE_NUMERIC") | g("REPR_PREPARED"),
        "bool": g("TYPE_NUMERIC") | g("REPR_BOOLEAN"),
        "rk": g("TYPE_NUMERIC") | g("REPR_RKNUMBER"),
        "rkdate": g("TYPE_NUMERIC") | g("REPR_RKNUMBER") | g("REPR_TEMPORAL"),
    }


# ------------------------------------------------------------------ XLSB parts


def wstr(s):
    b = s.encode("utf-16-le")
    return struct.pack("<I", len(b) // 2) + b


def bundle(name, rid, state=0, tab=1):
    return (412, struct.pack("<II", state, tab) + wstr(rid) + wstr(name))


def fmt_rec(i, code):
    return (44, struct.pack("<H", i) + wstr(code))


def xf_rec(fmt, parent=0):
    return (47, struct.pack("<HH", parent, fmt) + b"\0" * 12)


def xstring(eng, name, prefix=(), n=None):
    """Length field and text of a symbolic string (of any or the given length)."""
    if n is not None:
        seg = Seg(name, 0, 2 * n)
        return [*(lift(eng, x) for x in prefix), *(lift(eng, x) for x in struct.pack("<I", n)), seg], n, seg
    n = BitSym(eng, f"length of {name}", 32, 0, 0x1FFF)
    seg = Seg(name, 0, norm_aff(aff_scale(to_aff(n.value()), 2)))
    parts = [*(lift(eng, x) for x in prefix), *(BitsV(eng, [(n, 8 * i + j) for j in range(8)]) for i in range(4)), seg]
    return parts, n, seg


def text_of(eng, seg):
    return eng.call(eng.getattr(ByteStr(eng, [seg]), "decode"), ["utf-16-le"], {})


def field(eng, name, nbytes, lo=0, hi=None):
    s = BitSym(eng, name, 8 * nbytes, lo, hi)
    return s, [BitsV(eng, [(s, 8 * i + j) for j in range(8)]) for i in range(nbytes)]


def tail(name="rest of the record", n=4):
    return Seg(name, 0, n)


# ------------------------------------------------------------------ XLSX parts


def start(tag, **attrs):
    return ("start", tag, attrs)


def end(tag):
    return ("end", tag)


def text(x):
    return ("text", x)


def el(tag, *content, **attrs):
    out = [("start", tag, attrs)]
    for c in content:
        out += c if isinstance(c, list) else [c]
    return [*out, end(tag)]


def rels_events(rels):
    evs = []
    for rid, typ, target in rels:
        evs += el("Relationship", **{"Id": rid, "Type": typ if "/" in typ else REL + typ, "Target": target})
    return el("Relationships", evs)


def styles_events(fmts, xfs):
    nf = [x for i, c in fmts for x in el("numFmt", **{"numFmtId": str(i), "formatCode": c})]
    # the master formats come first and are no cell formats
    return el(
        "styleSheet",
        el("numFmts", nf),
        el("cellStyleXfs", el("xf", numFmtId="14"), el("xf", numFmtId="0")),
        # the master format that a cell format is based on does not matter
        el("cellXfs", [x for i, f in enumerate(xfs) for x in el("xf", **{"numFmtId": str(f), "xfId": str((0, 1, 17)[i % 3])})]),
    )


def sheets_events(sheets):
    return el("workbook", el("sheets", [x for n, rid in sheets for x in el("sheet", **{"name": n, "sheetId": "1", "r:id": rid})]))


# ------------------------------------------------------------------ workbooks


def make(eng, fmt, sheet=(), shared=None, styles=None, sheets=None, rels=None, null_values=MISSING, extra=None, enter=True, drop=(), file=None, names=None, before=None):
    """An open workbook. ``shared``: raw part; ``styles``: (custom formats, xfs) or None; ``sheet``: raw part of the first sheet."""
    ext = "bin" if fmt == XLSB else "xml"
    rels = [("rId1", "worksheet", f"worksheets/sheet1.{ext}"), ("rId9", "theme", "theme/theme1.xml")] if rels is None else rels
    sheets = [("One", "rId1")] if sheets is None else sheets
    parts = {"[Content_Types].xml": el("Types")}
    parts[f"xl/_rels/workbook.{ext}.rels"] = rels_events(rels)
    if fmt == XLSB:
        parts["xl/workbook.bin"] = [(131, b""), *(bundle(n, r) for n, r in sheets), (132, b"")]
        if styles is not None:
            parts["xl/styles.bin"] = [*(fmt_rec(i, c) for i, c in styles[0]), xf_rec(14, 0xFFFF), xf_rec(0, 0xFFFF), *(xf_rec(f, (0, 1, 0x1100)[i % 3]) for i, f in enumerate(styles[1]))]
    else:
        parts["xl/workbook.xml"] = sheets_events(sheets)
        if styles is not None:
            parts["xl/styles.xml"] = styles_events(*styles)
    if shared is not None:
        parts[f"xl/sharedStrings.{ext}"] = shared
    parts[f"xl/worksheets/sheet1.{ext}"] = sheet
    parts.update(extra or {})
    for d in drop:
        parts.pop(d, None)
    w = World(eng, parts, names)
    if before is not None:
        before(w)
    mod, name = ("rxls.reader.xlsb", "XlsbWorkbook") if fmt == XLSB else ("rxls.reader.xlsx", "XlsxWorkbook")
    cls = eng.anchor(mod, name)
    kw = {} if null_values is MISSING else {"null_values": null_values}
    wb = eng.call(cls, [sym("file", "str") if file is None else file], kw)
    if enter:
        wb = eng.call(eng.getattr(wb, "__enter__"), [], {})
    return w, wb


def leave(eng, wb):
    eng.call(eng.getattr(wb, "__exit__"), [None, None, None], {})


def cells(eng, wb, sheet=0, limit=40, each=None, **kw):
    """The cells of a worksheet as (row, col, kind, value)."""
    out = []

    def got(c):
        out.append(tuple(eng.getattr(c, n) for n in ("row", "col", "xdt", "val")))
        if each is not None:
            each(out[-1])
        if len(out) > limit:
            raise Violation("the worksheet yields more cells than it holds")

    eng.iterate(eng.call(eng.getattr(wb, "iter_worksheet"), [sheet], kw), got)
    return out


def expect_int(eng, what, got, want):
    a, b = lift(eng, got), lift(eng, want)
    if a is not None and b is not None and (isinstance(got, BitsV) or isinstance(want, BitsV)):
        if a.same(b):
            return
        asg = differ(eng, a, b)
        if asg is not None:
            raise Violation(f"{what} is {a!r}, not {b!r} (e.g. {hexes(asg)})")
        raise Undecided(f"{what}: {a!r} == {b!r}")
    if to_aff(got) is None:
        raise Undecided(f"{what}: {got!r}")
    if not eng.truth(eng.compare("Eq", got, want)):
        raise Violation(f"{what} is {got!r}, not {want!r}")


def same_data(eng, got, want):
    """True, False or None (unknown)."""
    if isinstance(want, (ByteStr, bytes)) or isinstance(got, (ByteStr, bytes)):
        try:
            a, b = to_bs(eng, got), to_bs(eng, want)
        except Undecided:
            return False if isinstance(got, (str, int, type(None))) or isinstance(want, (str, int, type(None))) else None
        return same(eng, a, b) or (False if plain_parts(a) and plain_parts(b) else None)
    if got is want or (is_conc(got) and is_conc(want)):
        return got is want or (type(got) is type(want) and got == want)
    return False


def plain_parts(b):
    return all(isinstance(p, Seg) or p.whole() is not None or p.const() is not None or symbols(p) for p in b.parts)


def expect_cells(eng, what, got, want):
    for g, w in zip(got, want):
        for i, name in enumerate(("row", "column", "kind")):
            if w[i] is not None:
                expect_int(eng, f"{what}: the {name} of a cell", g[i], w[i])
        if w[3] is not None:
            r = same_data(eng, g[3], w[3])
            if r is None:
                raise Undecided(f"{what}: {g[3]!r} vs {w[3]!r}")
            if not r:
                raise Violation(f"{what}: the value of the cell is {short(g[3], 120)}, not {short(w[3], 120)}")
    if len(got) != len(want):
        raise Violation(f"{what}: {len(got)} cells are yielded where {len(want)} are expected ({short(got, 160)} vs {short(want, 160)})")


def is_error_text(eng, s):
    return eng.truth(eng.contains(frozenset(ERRORS), s))


def predicate(eng, tag="null"):
    """A null predicate of the caller about which nothing is known."""

    def f(e, a, k):
        return e.lit(Term(f"{tag}-predicate", (a[0],), "bool"), f"the null predicate holds for {short(a[0])}")

    return Builtin("null predicate", f)


def holds(eng, s, tag="null"):
    return eng.lit(Term(f"{tag}-predicate", (s,), "bool"))


def is_null(eng, s, mode):
    """What the properties call a null text under a null_values setting."""
    if is_error_text(eng, s):
        return True
    if mode is None:
        return False
    if mode == "callable":
        return holds(eng, s)
    return eng.truth(eng.contains(frozenset(mode), s))


def null_arg(eng, mode):
    if mode is None:
        return MISSING
    if mode == "callable":
        return predicate(eng)
    return ListV(list(mode))


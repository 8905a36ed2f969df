"""C05, C06: cells of XLSX worksheets."""
from __future__ import annotations

from sa.report import Report

from .biff import explore
from .common import PyExc, Undecided, Violation
from .readers import *  # noqa: F403
from .readers import XLSX, build, cells, consts, el, end, expect_cells, is_null, make, null_arg, start, text

# custom formats and the formats of the cell styles 0, 1, ...
STYLES = (
    [(164, "yyyy\\-mm\\-dd;@"), (165, "#,##0.00"), (166, '"d"0'), (167, "0"), (168, "[h]:mm")],
    [0, 14, 164, 165, 2, 1, 3, 4, 37, 38, 39, 40, 48, 49, 22, 166, 167, 45, 168, 47],
)
# the same with a date, a number and a custom date as the format of cells that leave their style out
DEFAULTS = (14, 2, 168)
DATES = frozenset(("1", "2", "14", "17", "18", "19"))
NUMBERS = frozenset(("3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "16"))


def piece(name):
    return sym(name, "str")


def joined(eng, *pieces):
    return eng.call(eng.getattr(eng.cat(list(pieces), "str"), "strip"), [], {})


def encoded(eng, s):
    return eng.call(eng.getattr(s, "encode"), ["utf-8"], {})


def sheet_events(rows, sheetdata=True):
    """``rows``: lists of cell events."""
    return el("worksheet", el("sheetPr"), el("sheetData", [x for i, r in enumerate(rows) for x in el("row", r, r=str(i + 1))]), el("pageMargins"))


def cell_attrs(eng, ref, tag):
    at = {"r": ref}
    t = s = None
    if eng.choose(2, f"type of {tag}", ("declared", "absent")) == 0:
        t = at["t"] = sym(f"type of {tag}", "str")
    if eng.choose(2, f"style of {tag}", ("given", "absent")) == 0:
        s = at["s"] = sym(f"style of {tag}", "str")
    return at, t, s


def eq(eng, a, b):
    return eng.truth(eng.compare("Eq", a, b))


def expected_kind(eng, K, t, s):
    if t is not None and eq(eng, t, "s"):
        return K["shared"]
    if t is not None and eng.truth(eng.contains(frozenset(("str", "inlineStr", "e", "d")), t)):
        return K["text"]
    s = "0" if s is None else s
    if eng.truth(eng.contains(DATES, s)):
        return K["date"]
    if eng.truth(eng.contains(NUMBERS, s)):
        return K["number"]
    return K["text"]


def stray(n):
    return text(piece(f"stray text {n}"))


def t_el(*ps):
    return el("t", *[text(p) for p in ps])


P, Q, R = piece("text 1"), piece("text 2"), piece("text 3")
HINT, FORMULA = piece("hint"), piece("formula")
SHAPES = {
    "value": ([el("v", text(P))], [P]),
    "value in two pieces": ([el("v", text(P), text(Q))], [P, Q]),
    "formula and value": ([el("f", text(FORMULA)), stray(1), el("v", text(P)), stray(2)], [P]),
    "value and formula": ([el("v", text(P)), el("f", text(FORMULA))], [P]),
    "formula only": ([el("f", text(FORMULA))], []),
    "inline text": ([el("is", t_el(P))], [P]),
    "inline text in two pieces": ([el("is", t_el(P, Q))], [P, Q]),
    "rich inline text": ([el("is", stray(1), el("r", el("rPr", el("b")), t_el(P)), stray(2), el("r", t_el(Q)), el("r", t_el(R)))], [P, Q, R]),
    "inline text with hints": ([el("is", t_el(P), el("rPh", t_el(HINT), sb="0", eb="1"), el("phoneticPr", fontId="1"))], [P]),
    "rich inline text with hints": ([el("is", el("r", t_el(P)), el("r", t_el(Q)), el("rPh", t_el(HINT), sb="0"))], [P, Q]),
    "blank value": ([el("v")], []),
    "white space": ([el("v", text(" \n\t"))], []),
    "nothing": ([], []),
    "stray text": ([stray(1)], []),
    "extension": ([el("v", text(P)), el("extLst", el("ext", text(HINT)))], [P]),
}
BEFORE = {
    "none": ([], None),
    "shared string": (el("c", el("v", text("7")), r="A1", t="s"), "shared"),
    "formula text": (el("c", el("f", text(FORMULA)), el("v", text("x")), r="A1", t="str", s="1"), "text"),
    "blank": (el("c", r="A1", t="s"), None),
    "hint at the end": (el("c", el("is", t_el("y"), el("rPh", t_el(HINT))), r="A1", t="inlineStr"), "text"),
}


def c05_run(shape, before, mode):
    content, pieces = SHAPES[shape]
    prev, prev_kind = BEFORE[before]

    def run(eng):
        K = consts(eng)
        at, t, s = cell_attrs(eng, "B1", "the cell")
        row = [stray(3), *prev, stray(4), ("start", "c", at), *[x for c in content for x in (c if isinstance(c, list) else [c])], end("c"), stray(5), *el("c", el("v", text("9")), r="C1")]
        w, wb = make(eng, XLSX, sheet_events([row]), shared=el("sst"), styles=STYLES, null_values=null_arg(eng, mode))
        try:
            got = cells(eng, wb)
        except PyExc as e:
            raise Violation(f"{shape} (after {before}): the cell fails to read with {e.val!r}", e.val.where) from None
        want = [] if prev_kind is None else [(0, 0, K[prev_kind], None)]
        if mode == "callable" and (prev_kind == "text" or True):
            # the neighbours may be null as well
            want = [x for x in want if prev_kind == "shared" or not is_null(eng, "x" if before == "formula text" else "y", mode)]
        txt = joined(eng, *pieces)
        last = [] if is_null(eng, "9", mode) else [(0, 2, K["text"], b"9")]
        if eng.truth(txt):
            k = expected_kind(eng, K, t, s)
            val = [(0, 1, k, encoded(eng, txt))]
            if k == K["text"]:
                val = [] if is_null(eng, txt, mode) else val
            elif k != K["shared"] and is_null(eng, txt, mode):
                val = [x for x in val if any(isinstance(g[1], int) and g[1] == 1 for g in got)]
            want += val
        expect_cells(eng, f"{shape} after {before}", got, want + last)

    return run


def c05_default(fmt):
    def run(eng):
        K = consts(eng)
        at, t, s = {"r": "B1"}, None, None
        if eng.choose(2, "type", ("declared", "absent")) == 0:
            t = at["t"] = sym("type of the cell", "str")
        if eng.choose(2, "style", ("0", "absent")) == 0:
            at["s"] = "0"
        w, wb = make(eng, XLSX, sheet_events([el("c", el("v", text(P)), **at)]), shared=el("sst"), styles=(STYLES[0], [fmt, 0, 0]))
        got = cells(eng, wb)
        if t is not None and eq(eng, t, "s"):
            k = K["shared"]
        elif t is not None and eng.truth(eng.contains(frozenset(("str", "inlineStr", "e", "d")), t)):
            k = K["text"]
        else:
            k = K["number"] if fmt == 2 else K["date"]
        txt = joined(eng, P)
        want = [(0, 1, k, encoded(eng, txt))] if eng.truth(txt) and (k == K["shared"] or not is_null(eng, txt, None)) else []
        if k not in (K["shared"], K["text"]) and not want and got:
            want = [(0, 1, k, encoded(eng, txt))] if eng.truth(txt) else []
        expect_cells(eng, f"default format {fmt}", got, want)

    return run


def c05(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for fmt in DEFAULTS:
        explore(eng, rep, c05_default(fmt), "cell", f"default format {fmt}")
    for shape in SHAPES:
        for before in BEFORE if tier == "thorough" or shape in ("value", "nothing", "blank value", "formula only") else ("none", "blank"):
            for mode in (None, "callable") if (shape == "value" and before == "none") or tier == "thorough" else (None,):
                explore(eng, rep, c05_run(shape, before, mode), "cell", f"{shape}, after {before}, null values: {mode}")
    return rep.finish(
        "iter_worksheet of the XLSX reader (worker function included) is interpreted on the parser events of a cell whose "
        "declared type, style reference and pieces of text are symbolic, for every shape of content (value, formula, "
        "inline, rich, phonetic, blank) and preceding cell; the cells it yields are compared with the classification the "
        "property gives.",
        minimum=100,
    )


# --------------------------------------------------------------------- C06


def texts(n, tag="text"):
    return [piece(f"{tag} {i + 1}") for i in range(n)]


def runs_of(split, ps, hints=False, gap=None):
    """Text elements of an inline text or item: ``split`` pieces per run (None: no run element)."""
    out = []
    it = iter(ps)
    if len(split) == 1 and split[0] is not None:
        out += t_el(*[next(it) for _ in range(split[0])])
    else:
        for n in split:
            if gap:
                out.append(text(gap))
            out += el("r", el("rPr", el("sz", val="11")), t_el(*[next(it) for _ in range(n)]))
    if hints:
        out += [*el("rPh", t_el(piece("hint a"), piece("hint b")), sb="0", eb="2"), *el("phoneticPr", fontId="1")]
    if gap:
        out.append(text(gap))
    return out


SPLITS = [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (0, 1), (1, 0, 1)]


def c06_cell(split, where, hints, gap):
    n = sum(split)
    ps = texts(n)

    def run(eng):
        K = consts(eng)
        if where == "value":
            cell = el("c", el("v", *[text(p) for p in ps]), r="B1", t="str")
        elif where == "formula":
            cell = el("c", el("f", text(FORMULA), text(FORMULA)), el("v", *[text(p) for p in ps]), r="B1", s="1")
        else:
            cell = el("c", el("is", runs_of(split, ps, hints, gap)), r="B1", t="inlineStr")
        cell2 = el("c", el("is", runs_of((2,), texts(2, "next"))), r="C1", t="inlineStr")
        w, wb = make(eng, XLSX, sheet_events([[*cell, *cell2]]), styles=STYLES)
        try:
            got = cells(eng, wb)
        except PyExc as e:
            raise Violation(f"text in {n} pieces ({where}) fails to read with {e.val!r}", e.val.where) from None
        want = []
        for col, kind, txt in ((1, K["date"] if where == "formula" else K["text"], joined(eng, *ps)), (2, K["text"], joined(eng, *texts(2, "next")))):
            if eng.truth(txt) and not is_null(eng, txt, None):
                want.append((0, col, kind, encoded(eng, txt)))
        if where == "formula" and len(got) > len(want):
            want = [(0, 1, K["date"], encoded(eng, joined(eng, *ps))), *want][: len(got)]
        expect_cells(eng, f"text of {n} pieces ({where}, runs {split}{', hints' if hints else ''}{', white space between' if gap else ''})", got, want)

    return run


def same_item(eng, got, txt, mode=None):
    """Whether an entry of the table may stand for the text; blank and null texts may be null."""
    blank = not eng.truth(txt) if isinstance(txt, AbsVal) else not txt
    if got is None:
        return blank or is_null(eng, txt, mode)
    if blank:
        return got == "" or got is txt
    return got is txt or got == txt


def shared_items(eng, wb):
    t = eng.getattr(wb, "shared")
    from sa.models import ItemsV

    if isinstance(t, ItemsV):
        return t.items
    raise Undecided(f"table of shared strings: {short(t)}")


def c06_item(split, hints, gap):
    n = sum(split)
    ps = texts(n)

    def run(eng):
        evs = el("sst", el("si", runs_of(split, ps, hints, gap)), el("si", runs_of((2,), texts(2, "next"))))
        w, wb = make(eng, XLSX, sheet_events([]), shared=evs)
        try:
            items = shared_items(eng, wb)
        except PyExc as e:
            raise Violation(f"a shared string of {n} pieces fails to read with {e.val!r}", e.val.where) from None
        want = [joined(eng, *ps), joined(eng, *texts(2, "next"))]
        what = f"shared string of {n} pieces (runs {split}{', hints' if hints else ''}{', white space between' if gap else ''})"
        if len(items) != 2:
            raise Violation(f"{what}: {len(items)} entries for 2 items")
        for g, t in zip(items, want):
            if not same_item(eng, g, t):
                raise Violation(f"{what}: the entry is {short(g, 100)}, not {short(t, 100)}")

    return run


def c06(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for split in SPLITS:
        for hints, gap in ((False, None), (True, None), (False, "\n  "), (True, "\n  ")):
            wheres = ["inline"]
            if len(split) == 1 and not hints and not gap:
                wheres += ["value", "formula"]
            for where in wheres:
                explore(eng, rep, c06_cell(split, where, hints, gap), "cell-text", f"{where}, runs {split}, hints {hints}")
            explore(eng, rep, c06_item(split, hints, gap), "shared-text", f"runs {split}, hints {hints}")
    return rep.finish(
        "The handlers of iter_worksheet and of the shared-string table are interpreted on text handed over in one to three "
        "symbolic pieces, in one to three runs, with and without phonetic hints and white space between the elements; the "
        "text of the cell or entry must be the stripped concatenation of exactly those pieces.",
        minimum=100,
    )

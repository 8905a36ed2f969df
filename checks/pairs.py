"""C38: one sheet stored in both formats reads as equal tables."""
from __future__ import annotations

import itertools
import struct

from sa.report import Report

from .biff import explore
from .common import PyExc, Undecided, Violation, collect
from .readers import *  # noqa: F403
from .readers import XLSB, XLSX, el, text
from .columns import A, N, Num
from .tables import CUTS, EIGHT, MIXED, Sheet, TableV, build, ckey, exc_is, letters, literal, same_value

GENERAL = 0


class Twin(Sheet):
    """A worksheet whose numbers are those of another one.

    Further kinds of cells: ``e`` an error, ``g`` a number in the General format, ``b`` a boolean, ``k`` a whole number that
    XLSB stores in its short form, ``D`` a date that it stores so, ``u`` a text that one format shares and the other has in
    place, ``S`` an empty cell with a style."""

    def __init__(self, eng, fmt, rows, at=None, like=None, **kw):
        self.like = like
        super().__init__(eng, fmt, rows, at, **kw)

    def number(self, r, j, how):
        if self.like is not None:
            return self.like.cells[r, j].num
        return super().number(r, j, how)

    def cell(self, r, j, k):
        xlsb, c = self.fmt == XLSB, self.at[j]
        ref = {"r": f"{letters(c)}{r + 1}"}
        rec = lambda rid, style, data: (rid, struct.pack("<II", c, style) + data)  # noqa: E731
        if k == "e":
            return rec(3, 0, b"\x2a") if xlsb else el("c", el("v", text("#N/A")), t="e", **ref)
        if k == "S":
            return rec(1, 2, b"") if xlsb else el("c", s="2", **ref)
        if k == "b":
            return rec(4, 0, b"\1") if xlsb else el("c", el("v", text("1")), t="b", **ref)
        if k == "g":
            v = 10 * r + j
            return rec(5, GENERAL, struct.pack("<d", v)) if xlsb else el("c", el("v", text(str(v))), **ref)
        if k in "kD":
            v = 10 * r + j if k == "k" else 43831 + 10 * r + j
            style = 2 if k == "k" else 1
            return rec(2, style, struct.pack("<I", v << 2 | 2)) if xlsb else el("c", el("v", text(str(v))), s=str(style), **ref)
        if k == "u":
            return super().cell(r, j, "st"[(r + j + xlsb) % 2])
        return super().cell(r, j, k)


def equal(eng, p, q, what, one="XLSX", two="XLSB"):
    if same_value(p, q):
        return
    if isinstance(p, Term) and isinstance(q, Term) and p.op == q.op == "shown" and p.args[1] == q.args[1]:
        p, q = p.args[0], q.args[0]
    if isinstance(p, (Num, int, float)) and isinstance(q, (Num, int, float)):
        ok, ex = N.same(eng, p, q)
        if ok is None:
            raise Undecided(f"{what}: whether {p!r} is {q!r}")
        if ok:
            return
        raise Violation(f"{what} is {p!r} in {one} and {q!r} in {two}" + (f", e.g. for {ex}" if ex else ""))
    if any(isinstance(x, Term) and x.op not in ("shown", "solid", "cat") for x in (p, q)):
        raise Undecided(f"{what}: whether {p!r} is {q!r}")
    raise Violation(f"{what} is {p!r} in {one} and {q!r} in {two}")


def take(sh, args, kw, which):
    """A table, or the error the read ends with."""
    kw = {k: v(sh.eng) if callable(v) else v for k, v in kw.items()}
    try:
        t = sh.read(*args, sheet=which, **kw)
    except PyExc as e:
        if not exc_is(e.val.cls, Exception):
            raise
        return None, e
    if not isinstance(t, TableV):
        raise Undecided(f"{short(t)} is read")
    return t, None


def expect_equal(eng, what, first, second, p, q):
    """The two tables are equal (or both reads are refused likewise, for which the result is False)."""
    (x, ex), (y, ey) = first, second
    if (x is None) != (y is None):
        one, e = (p, ex) if x is None else (q, ey)
        raise Violation(f"{what}: the read of {one} fails with {e.val!r} and the other does not", e.val.where)
    if x is None:
        if ex.val.cls is not ey.val.cls:
            raise Violation(f"{what}: the read of {p} fails with {ex.val!r} and that of {q} with {ey.val!r}", ey.val.where)
        return False
    if [literal(n) for n in x.names] != [literal(n) for n in y.names] or any(ckey(m) != ckey(n) for m, n in zip(x.names, y.names)):
        raise Violation(f"{what}: the columns are called {x.names} in {p} and {y.names} in {q}")
    if len(x.cols) != len(y.cols):
        raise Violation(f"{what}: {len(x.cols)} columns come out of {p} and {len(y.cols)} out of {q}")
    for name, m, n in zip(x.names, x.cols, y.cols):
        m, n = A.as_pa(eng, m), A.as_pa(eng, n)
        if m.t.n != n.t.n:
            raise Violation(f"{what}: column {name!r} is of type {m.t.n} in {p} and {n.t.n} in {q}")
        u, v = m.items(eng), n.items(eng)
        if len(u) != len(v):
            raise Violation(f"{what}: column {name!r} has {len(u)} values in {p} and {len(v)} in {q}")
        for i, (a, b) in enumerate(zip(u, v)):
            equal(eng, a, b, f"{what}: value {i} of column {name!r}", p, q)
    return True


def pair_run(rows, at, header, kw, rep, which=0, rule="equal", dates=None):
    def run(eng):
        reg = eng.path.data.setdefault("dates", {})
        for x, d in (dates or {}).items():
            reg[ckey(x)] = d
        a = Twin(eng, XLSX, rows, at)
        b = Twin(eng, XLSB, rows, at, like=a)
        what = f"sheet {rows} at {a.at}, header {header}, {', '.join(f'{k}={v if not callable(v) else chr(8230)}' for k, v in kw.items()) or 'no options'}"
        x, y = take(a, (header,), kw, which), take(b, (header,), kw, which)
        if not expect_equal(eng, what, x, y, "XLSX", "XLSB"):
            rep.ok("refused")
            return
        rep.ok(rule)

    return run


def nulls(*texts):
    return lambda eng: Builtin("null predicate", lambda e, a, k: a[0] in texts)


def pa(name, *a):
    return lambda eng: eng.lib.calls["pyarrow." + name](eng, list(a), {})


SHEETS = (
    *CUTS,
    (("tttt", *EIGHT), None),
    (("tttt", *MIXED), (0, 3, 9, 26)),
    (("uuuuu", "kDe.S", "kDkuu", "kDe.D", "ndktD", "i.N.e"), None),
    (("utu", "...", "ndk", "...", "...", "kDn", "S.S", "uuu"), (2, 3, 30)),
    (("eeu", "tee", "ute", "n.d", "eeS", "nkD"), None),
    ((("=a", "=NA", "=a", "=b"), ("#1", "=NA", "=x", "@43831"), ("k", "=-", "=NA", "D"), (".", "e", "u", "n"), ("#2.5", "=NA", "=-", "@43832.25")), None),
    ((("=a", "=b", "=c", "."), ("=-", "=NA", "=-", "."), ("=x", ".", "=NA", "e"), (".", "=#N/A", ".", "."), ("#1", "=-", "D", "=y"), (".", ".", ".", "=z")), None),
)


ERRORS = (
    "#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA", "#ДЕЛ/0!", "#ЗНАЧ!", "#ССЫЛКА!", "#ИМЯ?", "#ЧИСЛО!", "#Н/Д",
    "#SPILL!", "#CALC!", "#", "#N/A!",
)


def options():
    """Options of the read function, with the headers they are tried with."""
    every = (0, True, 2)
    yield {}, (0, True, 2, 3, "names")
    for k in (1, 2):
        yield {"skip_rows": k}, every
        yield {"take_rows": k + 1}, every
        yield {"skip_rows": 1, "take_rows": k + 1}, every
        yield {"skip_rows_after_header": k}, (True, 2, "names")
    yield {"take_rows_non_empty": False}, every
    yield {"take_rows_non_empty": False, "skip_rows": 2, "take_rows": 3}, every
    # rows of which every value is null-listed or skipped
    yield {"take_rows_non_empty": False, "null_values": ["NA", "-", "r1c0", "r1c1", "r1c2", "r1c3", "s0c0"]}, every
    yield {"take_rows_non_empty": False, "null_values": ["NA", "-"], "skip_rows": 1, "take_rows": 2}, (0, True)
    yield {"take_rows_non_empty": False, "skip_cols": [0, 1, 2]}, every
    yield {"skip_cols": [0]}, every
    yield {"skip_cols": [1, 3]}, every
    yield {"skip_cols": [2, 26]}, (True,)
    yield {"null_values": ["NA", "-"]}, every
    yield {"null_values": nulls("NA", "b", "")}, (0, True)
    yield {"null_values": ["r0c0", "r1c1", "r2c1", "r3c0", "r4c3"]}, every
    yield {"null_values": []}, (True,)
    for c in ("all", "numeric", "temporal", "no"):
        yield {"conflict_resolve": c}, (0, True, 2)
        yield {"conflict_resolve": c, "datetime_formats": "%d.%m.%Y", "skip_rows_after_header": 1}, (True,)
    yield {"row_filters": [0]}, (True, "names")
    yield {"row_filters": [1, 0], "row_filters_strategy": "and"}, (True, 0)
    yield {"row_filters": "c0"}, (True, 2)
    yield {"lookup_head": "r1"}, (True,)
    yield {"lookup_head": 1, "lookup_size": 3}, (True, 2)
    yield {"lookup_head": "r2c"}, (True,)
    yield {"lookup_head": "^b$"}, (True,)
    yield {"float_precision": 2}, (0, True)
    yield {"dtypes": pa("large_string")}, (0, True)
    yield {"dtypes": pa("float64"), "skip_rows_after_header": 1}, (True,)


def c38(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for item, at in SHEETS:
        n = len(item[0])
        for kw, headers in options():
            for h in headers:
                h = [f"g{i}" for i in range(n)] if h == "names" else h
                rows = item
                if not isinstance(h, list) and h and not isinstance(rows[0], tuple):
                    # what becomes names is made of texts
                    top = kw.get("skip_rows", 0) + h if "lookup_head" not in kw else 6
                    top += sum(set(r) <= {"."} for r in rows)
                    rows = tuple("".join("u" if x not in "tsu." else x for x in r) if i < top else r for i, r in enumerate(rows))
                explore(eng, rep, pair_run(rows, at, h, kw, rep), "equal", f"{rows}, {at}, {h}, {kw}")
    # every arrangement of two kinds of cells in a column, beside one that is never empty
    kinds = "tuskDndeS." if tier == "quick" else "tuskDndeSN."
    for depth in (2, 3):
        for col in itertools.product(kinds, repeat=depth):
            if depth == 3 and tier == "quick" and (col[0] == col[1] or col[1] == col[2] or "s" in col):
                continue
            rows = tuple(c + "t" for c in col)
            for kw in ({}, {"conflict_resolve": "all"}):
                explore(eng, rep, pair_run(rows, None, 0, kw, rep), "equal", f"{rows}, {kw}")
    # names that are numbers and dates
    for row in ("kt", "Dt", "tn", "td", "et", "NtS", "t.n"):
        for rows in ((row, "u" * len(row)), ("u" * len(row), row, "n" * len(row))):
            for h in (True, 2):
                explore(eng, rep, pair_run(rows, None, h, {}, rep), "equal", f"{rows}, {h}")
    explore(eng, rep, pair_run(tuple((f"={x}", "t") for x in ERRORS), None, 0, {}, rep), "equal", "error texts")
    for rule, rows in (
        ("general-numbers", "gg"), ("booleans", "bb"),
        ("empty-texts", (("=a",), ("=",), ("=b",))), ("blanks-around-texts", (("= a",), ("=b ",))),
    ):
        difference(eng, rep, rule, rows)
    return rep.finish(
        "the read function is interpreted on the same abstract sheet stored in both formats, in one path, so that both reads meet "
        "the same symbolic numbers and texts; names, types and values of the two tables (or the kinds of their errors) are compared "
        "directly, without an oracle for what they should be.",
        minimum=500,
    )


def difference(eng, rep, rule, rows):
    """Cells of which the readers are known to make different columns."""
    res = eng.explore(pair_run(rows, None, 0, {}, rep, rule=rule), max_paths=50, stop_on_violation=2, time_limit=50)
    collect(rep, rule, eng, res, name="rxls.reader.common.read", escaped="{exc} escapes")

"""C34: every option of the read function is honoured in both formats."""
from __future__ import annotations

import ast
import datetime
import os

from sa.report import Report

from .biff import explore
from .common import PyExc, Undecided, Violation
from .readers import *  # noqa: F403
from .readers import XLSB, XLSX, make
from .tables import FMTS, STYLES, A, Sheet, TableV, arg_of, build, call, expect_columns, expect_names, exc_is

DAY = 86400000


def moment(text, fmt):
    d = datetime.datetime.strptime(text, fmt)
    return (d - datetime.datetime(1970, 1, 1)) // datetime.timedelta(milliseconds=1)


def values(eng, t):
    """Types and values of a table whose values are known."""
    out = []
    for name, c in zip(t.names, t.cols):
        c = A.as_pa(eng, c)
        out.append((name, c.t.n, [plain(eng, x, c.t) for x in c.items(eng)]))
    return out


def plain(eng, x, t):
    if isinstance(x, Term) and x.op == "shown":
        v, ty = x.args
        if ty == "double" and isinstance(v, (int, float)):
            return f"{v:g}"
        if ty == "timestamp[ms]" and isinstance(v, int):
            return f"at {v}"
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if t.n == "bool" and hasattr(x, "v"):
        return x.v
    raise Undecided(f"value {x!r}")


def expect_values(eng, what, t, want):
    """``want``: per column, kind of type and values."""
    got = values(eng, t)
    if len(got) != len(want):
        raise Violation(f"{what}: {len(got)} columns come out instead of {len(want)}: {[n for n, _, _ in got]}")
    for i, ((name, ty, vals), (kind, exp)) in enumerate(zip(got, want)):
        if kind == "text":
            ok = ty in ("large_string", "string")
        else:
            ok = ty == {"whole": "int64", "fraction": "double", "date": "timestamp[ms]"}.get(kind, kind)
        if not ok:
            raise Violation(f"{what}: column {i} ({name!r}) is of type {ty} and not of {kind}s")
        if len(vals) != len(exp) or any(a != b for a, b in zip(vals, exp)):
            raise Violation(f"{what}: column {i} ({name!r}) holds {vals} instead of {exp}")


def ms(serial):
    return round((serial - 25569) * DAY)


class Scene:
    """One reading with an option, and what comes of it."""

    def __init__(self, option, value, rows, want, header=0, at=None, dates=None, **kw):
        self.option, self.value, self.rows, self.want = option, value, rows, want
        self.header, self.at, self.dates, self.kw = header, at, dates or {}, kw

    def __call__(self, fmt, rep):
        def run(eng):
            reg = eng.path.data.setdefault("dates", {})
            for text, d in self.dates.items():
                reg[ckey(text)] = d
            sh = Sheet(eng, fmt, self.rows, self.at)
            kw = dict(self.kw)
            if self.option not in ("header", "none"):
                kw[self.option] = self.value(eng) if callable(self.value) else self.value
            what = f"{fmt}, sheet {self.rows}, {self.option}={self.value if not callable(self.value) else '...'}" + (f", {self.kw}" if self.kw else "")
            bad = self.want if isinstance(self.want, type) else None
            t = call(sh, what, bad, self.header, **kw)
            if t is not None:
                want = self.want(eng) if callable(self.want) else self.want
                expect_values(eng, what, t, want)
            rep.ok(self.option)

        return run


class AnyError(Exception):
    """Stands for an error of any kind."""


def refused_run(fmt, rows, header, rep, sheet=0, **kw):
    def run(eng):
        sh = Sheet(eng, fmt, rows)
        what = f"{fmt}, sheet {rows}, " + ", ".join(f"{k}={v!r}" for k, v in kw.items()) + (f", sheet {sheet!r}" if sheet != 0 else "")
        try:
            t = sh.read(header, sheet=sheet, **kw)
        except PyExc as e:
            if not exc_is(e.val.cls, Exception):
                raise Violation(f"{what}: {e.val!r} ends the read", e.val.where) from None
            rep.ok("refused")
            return
        raise Violation(f"{what}: the argument is accepted, {t!r} comes out")

    return run


def N_(*xs):
    return [f"#{x}" if x is not None else "." for x in xs]


def cols(*xs):
    return [list(r) for r in zip(*xs)]


def scenes():
    five = cols(N_(10, 11, 12, 13, 14), N_(20, 21, 22, 23, 24), N_(30, 31, 32, 33, 34))
    col = lambda a, *r: ("whole", [10 * a + i for i in r])  # noqa: E731
    S = Scene
    yield S("none", None, five, [col(1, *range(5)), col(2, *range(5)), col(3, *range(5))])
    # columns
    yield S("skip_cols", [1], five, [col(1, *range(5)), col(3, *range(5))])
    yield S("skip_cols", [0, 2], five, [col(2, *range(5))])
    yield S("skip_cols", [27], five, [col(1, *range(5)), col(2, *range(5))], at=(0, 26, 27))
    yield S("skip_cols", [0], five, [col(2, *range(5)), col(3, *range(5))], at=(0, 26, 27))
    yield S("skip_cols", [], five, [col(1, *range(5)), col(2, *range(5)), col(3, *range(5))])
    # rows
    for k in range(4):
        yield S("skip_rows", k, five, [col(a, *range(k, 5)) for a in (1, 2, 3)])
        yield S("skip_rows_after_header", k, five, [col(a, *range(k, 5)) for a in (1, 2, 3)])
    for k in range(3):
        yield S("take_rows", k + 1, five, [col(a, *range(k + 2)) for a in (1, 2, 3)])
        yield S("take_rows", k + 1, five, [col(a, *range(1, min(k + 3, 5))) for a in (1, 2, 3)], skip_rows=1)
    yield S("take_rows", 0, five, [col(a, *range(5)) for a in (1, 2, 3)])
    gap = [["#1"], ["."], ["#2"], ["."], ["#3"]]
    yield S("take_rows_non_empty", True, gap, [("whole", [1, None, 2, None, 3])])
    yield S("take_rows_non_empty", False, gap, [("whole", [1, 2, 3])])
    # heads
    head = [["=a", "=b"], ["=c", "=d"], ["#1", "#2"], ["#3", "#4"]]
    yield S("header", 1, [["=a", "=b"], *head[2:]], [("whole", [1, 3]), ("whole", [2, 4])], header=True)
    yield S("header", 2, head, [("whole", [1, 3]), ("whole", [2, 4])], header=2)
    yield S("header", ["p", "q"], head[2:], [("whole", [1, 3]), ("whole", [2, 4])], header=["p", "q"])
    deep = [["=x", "."], ["=y", "."], ["=z", "=k"], ["#1", "#2"], ["#3", "#4"]]
    two = [("whole", [1, 3]), ("whole", [2, 4])]
    for pattern in ("^z$", "k", 1):
        for size, want in ((1, ValueError), (2, ValueError), (3, two), (4, two), (30, two), (None, two)):
            yield S("lookup_head", pattern, deep, want, header=True, **({"lookup_size": size} if size else {}))
    yield S("lookup_head", "nowhere", deep, ValueError, header=True)
    long = [*([["=x", "."]] * 29), ["=z", "=k"], ["#1", "#2"], ["#3", "#4"]]
    yield S("lookup_head", "^z$", long, two, header=True)
    yield S("lookup_head", "^z$", [["=x", "."], *long], ValueError, header=True)
    yield S("lookup_head", "^z$", [["=x", "."], *long], two, header=True, lookup_size=31)
    # filters
    fil = [["=a", "=b", "=c"], ["#1", ".", "#11"], [".", "#2", "#12"], ["#3", "#3", "#13"], [".", ".", "#14"], ["#5", "#5", "."]]
    w = lambda *rs: [("whole", [{1: 1, 3: 3, 5: 5}.get(r) for r in rs]), ("whole", [{2: 2, 3: 3, 5: 5}.get(r) for r in rs]), ("whole", [10 + r if r < 5 else None for r in rs])]  # noqa: E731
    yield S("row_filters", "^a$", fil, w(1, 3, 5), header=True)
    yield S("row_filters", ["b"], fil, w(2, 3, 5), header=True)
    yield S("row_filters", [2], fil, w(1, 2, 3, 4), header=True)
    yield S("row_filters", ["a", "b"], fil, w(1, 2, 3, 5), header=True)
    yield S("row_filters_strategy", "or", fil, w(1, 2, 3, 5), header=True, row_filters=["a", "b"])
    yield S("row_filters_strategy", "and", fil, w(3, 5), header=True, row_filters=["a", "b"])
    yield S("row_filters_strategy", ["and", "or"], fil, w(1, 2, 3, 4, 5), header=True, row_filters=[0, 1, 2])
    yield S("row_filters_strategy", ["or", "and"], fil, w(1, 2, 3), header=True, row_filters=[0, 1, 2])
    yield S("row_filters_strategy", ("and", "and"), fil, w(3), header=True, row_filters="^[abc]$")
    # precision
    near = [["#1.0001", "#1.00000001"], ["#2", "#2"], ["#3", "#3"]]
    whole, frac = ("whole", [1, 2, 3]), ("fraction", [1.0001, 2.0, 3.0])
    for p, want in ((2, [whole, whole]), (3, [whole, whole]), (4, [frac, whole]), (6, [frac, whole]), (7, [frac, whole]), (8, [frac, ("fraction", [1.00000001, 2.0, 3.0])]), (12, [frac, ("fraction", [1.00000001, 2.0, 3.0])])):
        yield S("float_precision", p, near, want)
    yield S("none", None, near, [frac, whole])
    # six digits are the default
    yield S("none", None, [["#1.000002", "#1.0000002"], ["#2", "#2"]], [("fraction", [1.000002, 2.0]), ("whole", [1, 2])])
    # conflicts
    mixed = [["@43831", "#7", "@43831", "@43831"], ["#43832", "=12", "=31.12.2021", "=2021-12-31"]]
    t = lambda s: ms(s)  # noqa: E731
    shown = lambda *xs: ("text", list(xs))  # noqa: E731
    dates = {"31.12.2021": {"%d.%m.%Y": moment("31.12.2021", "%d.%m.%Y")}, "2021-12-31": {"%Y-%m-%d": moment("2021-12-31", "%Y-%m-%d"), "iso": moment("2021-12-31", "%Y-%m-%d")}}
    d0, d1, last = t(43831), t(43832), moment("31.12.2021", "%d.%m.%Y")
    asis = [shown(f"at {d0}", "43832"), shown("7", "12"), shown(f"at {d0}", "31.12.2021"), shown(f"at {d0}", "2021-12-31")]
    date = lambda *xs: ("date", list(xs))  # noqa: E731
    yield S("none", None, mixed, asis, dates=dates)
    yield S("conflict_resolve", "no", mixed, asis, dates=dates)
    yield S("conflict_resolve", "numeric", mixed, [asis[0], ("whole", [7, 12]), asis[2], asis[3]], dates=dates)
    for how in ("temporal", "all"):
        num = ("whole", [7, 12]) if how == "all" else asis[1]
        both = [date(d0, d1), num, date(d0, last), date(d0, last)]
        yield S("conflict_resolve", how, [r[:2] for r in mixed], [date(d0, d1), num], dates=dates)
        yield S("datetime_formats", "%d.%m.%Y", [r[:3] for r in mixed], both[:3], dates=dates, conflict_resolve=how)
        yield S("datetime_formats", ("%Y-%m-%d", "%d.%m.%Y"), mixed, both, dates=dates, conflict_resolve=how)
        yield S("datetime_formats", "%Y-%m-%d", mixed, [date(d0, d1), num, asis[2], date(d0, last)], dates=dates, conflict_resolve=how)
        yield S("datetime_formats", ("%d.%m.%y",), mixed, [date(d0, d1), num, asis[2], asis[3]], dates=dates, conflict_resolve=how)
    yield S("datetime_formats", "%d.%m.%Y", mixed, asis, dates=dates)
    # nulls
    na = [["=NA", "=x"], ["=y", "=-"], ["s", "=NA"]]
    na2 = [["=NA", "=x"], ["=y", "=-"]]
    yield S("none", None, na2, [shown("NA", "y"), shown("x", "-")])
    yield S("null_values", ["NA"], na2, [shown(None, "y"), shown("x", "-")])
    yield S("null_values", ("NA", "-"), na2, [shown(None, "y"), shown("x", None)])
    yield S("null_values", lambda eng: Builtin("null predicate", lambda e, a, k: a[0] in ("-", "NA")), na2, [shown(None, "y"), shown("x", None)])
    yield S("null_values", ["x"], [["=x", "#1"], ["#2", "#3"]], [("whole", [None, 2]), ("whole", [1, 3])])
    yield S("null_values", [], na2, [shown("NA", "y"), shown("x", "-")])
    # types
    pa = lambda n, *a: lambda eng: eng.lib.calls["pyarrow." + n](eng, list(a), {})  # noqa: E731
    yield S("dtypes", pa("float64"), five, [("fraction", [float(10 * a + i) for i in range(5)]) for a in (1, 2, 3)])
    yield S("dtypes", lambda eng: [pa("int32")(eng), pa("float32")(eng), pa("large_string")(eng)], five, [("int32", [10, 11, 12, 13, 14]), ("float", [20.0, 21.0, 22.0, 23.0, 24.0]), shown("30", "31", "32", "33", "34")])
    yield S("dtypes", lambda eng: {"q": pa("int8")(eng)}, five, [col(1, *range(5)), ("int8", [20, 21, 22, 23, 24]), col(3, *range(5))], header=["p", "q", "r"])
    yield S("dtypes", pa("timestamp", "s"), [["@43831"], ["@43832"]], [("timestamp[s]", [d0 // 1000, d1 // 1000])])


def callback_run(fmt, n, kw, kept, rep):
    def run(eng):
        calls = []
        sh = Sheet(eng, fmt, [["#1"]] * n)
        t = call(sh, f"{fmt}, {n} rows, row_callback", None, 0, row_callback=Builtin("row callback", lambda e, a, k: calls.append((a, k))), **kw)
        what = f"{fmt}, {n} rows, {kw or 'all'} are read"
        if any(a or k for a, k in calls):
            raise Violation(f"{what}: row_callback gets arguments")
        if len(calls) < kept:
            raise Violation(f"{what}: row_callback is called {len(calls)} times for {kept} rows")
        if t is not None and A.as_pa(eng, t.cols[0]).v_len(eng) != kept:
            raise Violation(f"{what}: {A.as_pa(eng, t.cols[0]).v_len(eng)} rows come out")
        rep.ok("row_callback")

    return run


def sheet_run(fmt, which, want, rep):
    """The second of three sheets, by its position and name."""

    def run(eng):
        ext = "bin" if fmt == XLSB else "xml"
        parts = {}
        names = ("First", "1", "Third one")
        for i in range(3):
            sh = Sheet(eng, fmt, [[f"#{100 + i}"], [f"#{200 + i}"]])
            parts[f"xl/worksheets/sheet{i + 1}.{ext}"], shared = sh.file()
        make(eng, fmt, parts.pop(f"xl/worksheets/sheet1.{ext}"), shared=shared, styles=STYLES, enter=False, extra=parts,
             sheets=[(n, f"rId{i + 1}") for i, n in enumerate(names)], rels=[(f"rId{i + 1}", "worksheet", f"worksheets/sheet{i + 1}.{ext}") for i in range(3)])
        what = f"{fmt}, sheets {names}, sheet {which!r}"
        try:
            t = eng.call(eng.anchor("rxls.reader.common", "read"), [sym("file", "str"), *([which] if which is not MISSING else [])], {})
        except PyExc as e:
            if want is None:
                rep.ok("sheet")
                return
            raise Violation(f"{what}: the read fails with {e.val!r}", e.val.where) from None
        if want is None:
            raise Violation(f"{what}: there is no such sheet, and {t!r} comes out")
        if not isinstance(t, TableV):
            raise Undecided(f"{what}: {t!r}")
        expect_values(eng, what, t, [("whole", [100 + want, 200 + want])])
        rep.ok("sheet")

    return run


def unused(repo):
    """Parameters of the read function its body never mentions."""
    path = os.path.join(repo, "rxls", "reader", "common.py")
    with open(path, encoding="utf-8") as io:
        tree = ast.parse(io.read())
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name == "read":
            names = [a.arg for a in (*f.args.posonlyargs, *f.args.args, *f.args.kwonlyargs)]
            used = {n.id for st in f.body for n in ast.walk(st) if isinstance(n, ast.Name)}
            if used & {"locals", "vars"}:
                return path, f.lineno, names, []
            return path, f.lineno, names, [n for n in names if n not in used]
    return path, 0, [], []


OPS = [["=a", "=b", "=c"], ["#1", "#2", "#3"], ["#4", ".", "#6"]]


def c34(pid, tier, repo):
    rep = Report(pid, tier, repo)
    path, line, names, idle = unused(repo)
    for n in names:
        if n in idle:
            rep.bad("unused-option", f"rxls.reader.common.read:{n}", f"the option {n} of the read function is never used", (path, line, "rxls.reader.common.read"))
        else:
            rep.ok("unused-option")
    eng = build(repo)
    for fmt in FMTS:
        for s in scenes():
            explore(eng, rep, s(fmt, rep), s.option if s.option != "none" else "defaults", f"{fmt}, {s.option}, {s.kw}")
        for kw, kept in (({}, 4), ({"skip_rows": 1}, 3), ({"take_rows": 1}, 2), ({"skip_rows": 2, "take_rows": 1}, 2)):
            explore(eng, rep, callback_run(fmt, 4, kw, kept, rep), "row_callback", f"{fmt}, {kw}")
        for which, want in ((0, 0), (1, 1), (2, 2), ("First", 0), ("1", 1), ("Third one", 2), (3, None), (17, None), ("first", None), ("", None), ("2", None), (MISSING, 0)):
            explore(eng, rep, sheet_run(fmt, which, want, rep), "sheet", f"{fmt}, {which!r}")
        for kw in (
            {"row_filters": ["a", "b"], "row_filters_strategy": "xor"}, {"row_filters": ["a", "b"], "row_filters_strategy": "AND"},
            {"row_filters": ["a", "b"], "row_filters_strategy": ["xor"]}, {"row_filters": ["a", "b", "c"], "row_filters_strategy": ["or", "nand"]},
            {"row_filters": ["a", "b", "c"], "row_filters_strategy": ["not", "and"]}, {"row_filters": ["a", "b", "c"], "row_filters_strategy": ("or", "")},
            {"row_filters": ["a", "b", "c"], "row_filters_strategy": ["or"]}, {"row_filters": ["a", "b"], "row_filters_strategy": ["or", "and"]},
            {"row_filters": ["a", "b"], "row_filters_strategy": []}, {"row_filters": ["a", "b"], "row_filters_strategy": 1},
            {"row_filters": ["a", "b"], "row_filters_strategy": [None]}, {"row_filters": ["a", "b"], "row_filters_strategy": None},
            {"row_filters": ["a", 1]}, {"row_filters": [0, "b"]}, {"row_filters": [1.5]}, {"row_filters": [None]}, {"row_filters": 7}, {"row_filters": {"a": 1}},
            {"skip_rows": -1}, {"skip_rows": -7}, {"take_rows": -1}, {"take_rows": -2, "skip_rows": 2}, {"take_rows": -3}, {"skip_rows": -1, "take_rows": 3},
        ):
            explore(eng, rep, refused_run(fmt, OPS, True, rep, **kw), "refused", f"{fmt}, {kw}")
    return rep.finish(
        "the read function is interpreted on small sheets of both formats with known values, once per option and value of it, "
        "and the table is compared with what the documentation of the option says; invalid arguments have to raise. Each "
        "parameter of the function has to be used in its body.",
        minimum=150,
    )

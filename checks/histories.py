"""C41: a read depends on its own arguments alone and leaves them as they were."""
from __future__ import annotations

import itertools

from sa.report import Report

from .biff import explore
from .common import PyExc, Undecided, Violation
from .pairs import Twin, expect_equal, nulls, options, pa, take
from .readers import *  # noqa: F403
from .readers import XLSB, XLSX, cells, leave
from .resources import Failing
from .tables import CUTS, FMTS, arg_of, build, ckey, exc_is, letters

GIVEN = [f"g{i}" for i in range(5)]


class Book(Twin):
    """A sheet that is read, and how the read of it is made."""

    def __init__(self, eng, fmt, rows, at=None, tag="r", path="file", fault=None):
        eng.path.data.setdefault("dates", {})[ckey(DATE[1:])] = {"%Y|%m|%d": 1594684800000}
        self.path, self.fault, self.mark, self.tag = path, fault, tag, tag
        super().__init__(eng, fmt, rows, at, name=lambda r, c: f"{tag}{r}c{c}")

    def cell(self, r, j, k):
        # the numbers of the other workbook do not matter
        return super().cell(r, j, {"n": "i", "d": f"@{43831.25 + r}"}.get(k, k) if self.tag != "r" else k)

    def file(self):
        part, shared = super().file()
        if self.fault is not None:
            part = Failing(list(part), self.fault, "ExpatError")
        return part, shared

    def book(self):
        """Ids of formats and styles, and the place of the sheet, mean something else in another workbook."""
        ext = "xml" if self.fmt == XLSX else "bin"
        if self.tag == "r":
            return {"styles": ([(164, "0.00"), (165, "yyyy")], [0, 165, 164]), "extra": {f"xl/worksheets/sheet2.{ext}": []}}
        part = f"xl/worksheets/sheet1.{ext}"
        return {
            "styles": ([(164, "hh:mm"), (165, "0.00"), (166, "[h]")], [0, 165, 166, 14]),
            "sheets": [("One", "rId2"), ("Two", "rId1")],
            "rels": [("rId1", "worksheet", f"worksheets/sheet1.{ext}"), ("rId2", "worksheet", f"worksheets/sheet2.{ext}")],
            "extra": {part.replace("sheet1", "sheet2"): self.file()[0]},
        }

    def open(self, null=MISSING):
        """The workbook, entered."""
        part, shared = self.file()
        return make(self.eng, self.fmt, part, shared=shared, null_values=null, **self.book())[1]


# sheets that differ in what they share, in their columns, kinds, lengths, and in what is null in them
DATE = "=2020|07|14"
TARGET = ("ututt", "tsuts", "sdntD", ("n", ".", "d", "s", DATE), (".", "n", "d", "u", DATE), "ekD.D")
OTHERS = (
    (("ssust", "utsut", "nsdks", "s.snt", "DDttn", "tueen", "nntd."), None),
    (("sss", "tst", "ndt", ".nt"), (1, 2, 7)),
    (("u",), (3,)),
    (("eeee", "ssss", "uuuu", "kkkk"), None),
)


def raising(kind=ValueError):
    def f(e, a, k):
        e.throw(kind, "of the caller")

    return lambda eng: Builtin("callback that fails", f)


def same_text(*texts):
    return lambda eng: ListV(list(texts))


def firsts():
    """How the first of two reads is made: (options, header, what makes it fail, how far it is read)."""
    yield {}, True, None, None
    for kw in (
        {"skip_rows": 1, "take_rows": 2},
        {"take_rows_non_empty": False, "skip_rows_after_header": 1},
        {"skip_cols": [0]},
        {"skip_cols": [1, 2]},
        {"null_values": ["r0c0", "r1c3", "r2c3", "r0c1", "r0c2", "r3c3", "s0c0"]},
        {"null_values": nulls("r0c0", "r1c0", "r1c3", "r2c3", "r0c1", "r0c2")},
        {"conflict_resolve": "all", "datetime_formats": ["%Y|%m|%d", "%Y"]},
        {"float_precision": 1, "conflict_resolve": "numeric"},
        {"row_filters": [0]},
        {"row_filters": "c0", "row_filters_strategy": "and"},
        {"lookup_head": "c0", "lookup_size": 1},
        {"dtypes": pa("large_string")},
    ):
        for h in (0, True):
            yield kw, h, None, None
    yield {}, 2, None, None
    yield {}, "names", None, None
    # reads that fail
    yield {"sheet": 7}, 0, "refused", None
    yield {"lookup_head": "nothing matches"}, True, "refused", None
    yield {"row_filters": [9]}, True, "refused", None
    yield {}, ["one name too few"], "refused", None
    yield {"null_values": raising()}, True, "refused", None
    yield {"row_callback": raising()}, True, "refused", None
    yield {"dtypes": pa("float64"), "conflict_resolve": "all"}, True, "refused", None
    for k in (3, 9, 14):
        yield {}, True, k, None
    # iterations that are given up, and workbooks that are left without one
    for n in (0, 1, 3, 99):
        yield {}, 0, None, n


SECONDS = (
    ({}, True),
    ({}, 0),
    ({}, 2),
    ({}, "names"),
    ({"conflict_resolve": "all", "skip_rows_after_header": 1}, True),
    ({"null_values": ["r0c0", "r1c3", "r2c3"]}, 0),
    ({"null_values": nulls("r2c3", "r0c2")}, 0),
    ({"skip_cols": [2]}, True),
    ({"skip_rows": 2, "take_rows": 2}, 0),
    ({"lookup_head": "^r1c3$"}, True),
    ({"lookup_head": 1}, True),
    ({"row_filters": [1, 2]}, True),
    ({"row_filters": "r0c[02]", "row_filters_strategy": "and"}, True),
    ({"datetime_formats": "%d.%m.%Y", "conflict_resolve": "all"}, 0),
    ({"float_precision": 3}, 0),
)


def text_of(kw, header):
    shown = ", ".join(f"{k}={v if not callable(v) else chr(8230)}" for k, v in kw.items())
    return f"header {header}" + (f", {shown}" if shown else "")


def names_for(header, n):
    return [f"g{i}" for i in range(n)] if header == "names" else header


def attempt(sh, args, kw, which):
    try:
        return take(sh, args, kw, which)
    except PyExc as e:  # what is no Exception is as good a failure here
        return None, e


def prior(eng, book, kw, header, stop):
    """The earlier read, whatever becomes of it."""
    kw = dict(kw)
    which = kw.pop("sheet", 0)
    if stop is None:
        attempt(book, (names_for(header, len(book.at)),), kw, which)
        return
    try:
        wb = book.open()
        if stop:
            it = eng.lazy(eng.call(eng.getattr(wb, "iter_worksheet"), [0], {}))
            for _ in range(stop):
                if it.next() is None:
                    break
        leave(eng, wb)
    except PyExc as e:
        if not exc_is(e.val.cls, Exception):
            raise


def history_run(fa, fb, rows, at, first, second, rep, path="another file", twice=False):
    kw, header, fault, stop = first
    kw2, header2 = second

    def run(eng):
        book = Book(eng, fb, TARGET)
        args = (names_for(header2, 5),)
        alone = attempt(book, args, kw2, 0)
        eng.restore()
        other = Book(eng, fa, rows, at, tag="s" if rows is not TARGET else "q", path=path, fault=fault if isinstance(fault, int) else None)
        prior(eng, other, kw, header, stop)
        if twice:
            prior(eng, other, kw, header, stop)
        after = attempt(book, args, kw2, 0)
        what = f"{fb}, {text_of(kw2, header2)}, read after {fa}, sheet {rows}, {text_of(kw, header)}"
        if isinstance(fault, int):
            what += ", failing in its middle"
        if stop is not None:
            what += f", given up after {stop} cells"
        expect_equal(eng, what, alone, after, "a read of its own", "a read after another one")
        rep.ok("history")

    return run


def again_run(fmt, second, rep):
    """The same read three times."""
    kw, header = second

    def run(eng):
        book = Book(eng, fmt, TARGET)
        args = (names_for(header, 5),)
        one = attempt(book, args, kw, 0)
        for i in ("second", "third"):
            two = attempt(book, args, kw, 0)
            expect_equal(eng, f"{fmt}, {text_of(kw, header)}, read again", one, two, "the first read", f"the {i} one")
        rep.ok("history")

    return run


# ------------------------------------------------------------------ open together


def cell_of(eng, c):
    return tuple(eng.getattr(c, n) for n in ("row", "col", "xdt", "val"))


def same_cell(eng, what, g, w):
    if len(g) != len(w):
        raise Undecided(what)
    for n, p, q in zip(("row", "column", "kind", "value"), g, w):
        if ckey(p) == ckey(q) or p is q:
            continue
        if n != "value":
            expect_int(eng, f"{what}: the {n} of a cell", p, q)
            continue
        r = same_data(eng, p, q)
        if r is None:
            raise Undecided(f"{what}: whether {p!r} is {q!r}")
        if not r:
            raise Violation(f"{what}: the value of a cell is {short(p, 120)}, not {short(q, 120)}")


def together_run(fa, fb, rows, at, order, rep, same=None):
    """Two workbooks, or one (``same``), iterated alternately."""

    def run(eng):
        a, b = Book(eng, fa, rows, at, tag="s", path="another file"), Book(eng, fb, TARGET)
        kws = ({}, {}) if same is None else same

        def it(wb, i):
            return eng.lazy(eng.call(eng.getattr(wb, "iter_worksheet"), [0], {k: arg_of(v) for k, v in kws[i].items()}))

        def all_of(g):
            out = []
            while (x := g.next()) is not None:
                out.append(cell_of(eng, x[0]))
            return out

        def alone(book, i):
            wb = book.open()
            got = all_of(it(wb, i)), eng.getattr(wb, "shared")
            leave(eng, wb)
            eng.restore()
            return got

        if same is not None:
            a = b
        want = alone(a, 0), alone(b, 1)
        wa = a.open()
        wb = wa if same is not None else b.open()
        its = [it(wa, 0), it(wb, 1)]
        got = [[], []]
        for i in order:
            x = its[i].next()
            if x is not None:
                got[i].append(cell_of(eng, x[0]))
        for i in (1, 0):
            got[i] += all_of(its[i])
        what = f"{fa} and {fb}, sheets {rows} and {TARGET} iterated in turns {order}" if same is None else f"{fb}, one sheet iterated twice in turns {order}, with {kws}"
        for i, w in enumerate((wa, wb)):
            if len(got[i]) != len(want[i][0]):
                raise Violation(f"{what}: iteration {i + 1} yields {len(got[i])} cells where it yields {len(want[i][0])} alone")
            for g, x in zip(got[i], want[i][0]):
                same_cell(eng, f"{what}: iteration {i + 1}", g, x)
            t, u = eng.to_list(eng.getattr(w, "shared")), eng.to_list(want[i][1])
            if len(t) != len(u) or any(ckey(p) != ckey(q) for p, q in zip(t, u)):
                raise Violation(f"{what}: the shared strings of workbook {i + 1} are {t}, not {u}")
        leave(eng, wa)
        if same is None:
            # the other one is still open
            for g, x in zip(all_of(it(wb, 1)), want[1][0]):
                same_cell(eng, f"{what}: after the first workbook is left", g, x)
            leave(eng, wb)
        rep.ok("together")

    return run


# ------------------------------------------------------------------ arguments


def contents(v):
    if isinstance(v, ListV):
        return ("list", tuple(contents(x) for x in v.items))
    if isinstance(v, tuple):
        return ("tuple", tuple(contents(x) for x in v))
    if isinstance(v, SetV):
        return ("set", tuple(contents(x) for x in v.items.values()))
    if isinstance(v, DictV):
        return ("dict", tuple((contents(k), contents(x)) for k, x in v.items.values()))
    return ckey(v)


def given():
    """Calls with lists, dicts and sets of the caller in them."""
    t = lambda eng: ListV([pa("large_string")(eng)] * 5)  # noqa: E731
    d = lambda *names: lambda eng: arg_of({n: pa("large_string")(eng) for n in names})  # noqa: E731
    yield GIVEN, {}
    yield GIVEN, {"dtypes": t}
    yield GIVEN, {"dtypes": d("g1", "g3")}
    yield GIVEN, {"dtypes": d("g1", "nothing")}
    yield ["a", "a", "b", "a", "c"], {"row_filters": ["a", "b"], "row_filters_strategy": ["or", "and", "or"]}
    yield ["a", "a", "", None, "a"], {}
    yield True, {"dtypes": t, "conflict_resolve": "all"}
    yield True, {"dtypes": d("r0c0", "r0c2")}
    for h in (0, True, 2, GIVEN):
        yield h, {"skip_cols": [7, 1, 1]}
        yield h, {"null_values": ["r0c0", "r1c3", "r1c3", "none of them"]}
        yield h, {"null_values": ["b", "a", "r2c3"], "skip_rows": 1}
        yield h, {"null_values": lambda eng: SetV(["r0c0", "r1c3"])}
        yield h, {"datetime_formats": ["%Y", "%Y|%m|%d", "%Y"], "conflict_resolve": "all"}
        yield h, {"row_filters": [2, 0, 0], "row_filters_strategy": ["and"]}
        yield h, {"row_filters": [0, 1, 2], "row_filters_strategy": ["and", "or"]}
        yield h, {"row_filters": [9, 0], "skip_cols": [1]}
        yield h, {"row_filters": ["Unnamed", "r0c1", "g"], "row_filters_strategy": "and"}
        yield h, {"row_filters": ["r0c3"], "lookup_head": "r0", "skip_rows_after_header": 1}
    # calls that are refused
    yield ["too", "few"], {}
    yield GIVEN, {"dtypes": lambda eng: ListV([pa("float64")(eng)] * 4)}
    yield GIVEN, {"dtypes": lambda eng: ListV([pa("float64")(eng)] * 5)}
    yield GIVEN, {"row_filters": ["g0", 1]}
    yield True, {"row_filters": ["r0c0", "r0c1", "r0c2"], "row_filters_strategy": ["and"]}
    yield True, {"lookup_head": "nothing", "skip_cols": [0], "null_values": ["x"]}


def arguments_run(fmt, header, kw, rep):
    def run(eng):
        book = Book(eng, fmt, TARGET)
        passed = {"header": arg_of(header), **{k: arg_of(v(eng) if callable(v) else v) for k, v in kw.items()}}
        before = {k: contents(v) for k, v in passed.items()}
        rest = {k: v for k, v in passed.items() if k != "header"}
        one = attempt(book, (passed["header"],), rest, 0)
        what = f"{fmt}, {text_of(kw, header)}"
        for k, v in passed.items():
            if contents(v) != before[k]:
                raise Violation(f"{what}: the argument {k} is {short(v, 160)} after the read")
        two = attempt(book, (passed["header"],), rest, 0)
        expect_equal(eng, f"{what}, the same objects passed twice", one, two, "the first read", "the second one")
        rep.ok("arguments")

    return run


def workbook_run(fmt, null, rep):
    """The null values of a workbook are those given when it was made."""

    def run(eng):
        book = Book(eng, fmt, TARGET)
        arg = arg_of(null)
        before = contents(arg)
        wb = book.open(arg)
        want = cells(eng, wb)
        again = cells(eng, wb)
        what = f"{fmt}, null_values {null}"
        if len(want) != len(again):
            raise Violation(f"{what}: a second iteration yields {len(again)} cells, the first {len(want)}")
        for g, x in zip(again, want):
            same_cell(eng, f"{what}: second iteration", g, x)
        if contents(arg) != before:
            raise Violation(f"{what}: the list given is {short(arg, 160)} after the sheet is iterated")
        leave(eng, wb)
        rep.ok("arguments")

    return run


def after_run(fmt, how, kw, rep):
    """An iteration of a workbook after another one of the same workbook, whatever became of that one."""
    kind, arg = how

    def run(eng):
        book = Book(eng, fmt, TARGET)
        part, shared = book.file()
        ext = "xml" if fmt == XLSX else "bin"

        def opened():
            first = Failing(list(part), arg, "ExpatError") if kind == "fails" else list(part)
            return make(
                eng, fmt, first, shared=shared, styles=book.book()["styles"],
                sheets=[("One", "rId1"), ("Two", "rId2")],
                rels=[("rId1", "worksheet", f"worksheets/sheet1.{ext}"), ("rId2", "worksheet", f"worksheets/sheet2.{ext}")],
                extra={f"xl/worksheets/sheet2.{ext}": list(part)},
            )[1]

        def given(kws):
            return {k: arg_of(v(eng) if callable(v) else v) for k, v in kws.items()}

        wb = opened()
        want = cells(eng, wb, 1, **given(kw))
        leave(eng, wb)
        eng.restore()
        wb = opened()
        try:
            it = eng.lazy(eng.call(eng.getattr(wb, "iter_worksheet"), [0], given(arg) if kind == "with" else {}))
            n = arg if kind == "given up after" else 99
            while n and it.next() is not None:
                n -= 1
        except PyExc:
            pass
        what = f"{fmt}, sheet 1 iterated with {text_of(kw, 0)} after an iteration of sheet 0 of the same workbook that {kind} {arg if not isinstance(arg, dict) else sorted(arg)}"
        for which in ("first", "second"):
            try:
                got = cells(eng, wb, 1, **given(kw))
            except PyExc as e:
                raise Violation(f"{what}: the {which} iteration fails with {e.val!r}", e.val.where) from None
            if len(got) != len(want):
                raise Violation(f"{what}: {len(got)} cells come out where it yields {len(want)} alone")
            for g, x in zip(got, want):
                same_cell(eng, what, g, x)
        leave(eng, wb)
        rep.ok("together")

    return run


AFTER = (
    *(("fails", k) for k in (0, 2, 7, 12, 20)),
    *(("given up after", n) for n in (0, 1, 2, 5)),
    *(("with", kw) for kw in ({"row_callback": raising()}, {"row_callback": raising(KeyboardInterrupt)}, {"skip_rows": -1}, {"take_rows": 1}, {"skip_cols": [0, 1], "skip_rows": 1}, {"take_rows_non_empty": False})),
)


def turns(n):
    """Orders in which two iterations take their first steps."""
    for k in range(1, n + 1):
        yield from itertools.product((0, 1), repeat=k)


def c41(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    thorough = tier != "quick"
    for i, first in enumerate(firsts()):
        for j, second in enumerate(SECONDS):
            for m, (fa, fb) in enumerate(itertools.product(FMTS, repeat=2)):
                for k, (rows, at) in enumerate(((TARGET, None), *OTHERS)):
                    if (7 * i + 4 * j + i * j + k + 5 * m) % (3 if thorough else 14):
                        continue
                    path = "file" if (i + k) % 2 else "another file"
                    explore(eng, rep, history_run(fa, fb, rows, at, first, second, rep, path, twice=(i + j) % 3 == 0), "history", f"{fa}, {fb}, {rows}, {first}, {second}")
    for fmt in FMTS:
        for second in SECONDS:
            explore(eng, rep, again_run(fmt, second, rep), "history", f"{fmt}, {second}, again")
        for header, kw in given():
            explore(eng, rep, arguments_run(fmt, header, kw, rep), "arguments", f"{fmt}, {header}, {kw}")
        for null in (["r0c0", "r1c3"], ["x", "r2c3", "x"], []):
            explore(eng, rep, workbook_run(fmt, null, rep), "arguments", f"{fmt}, {null}")
    for fa, fb in itertools.product(FMTS, repeat=2):
        for rows, at in OTHERS if thorough else OTHERS[:2]:
            for order in turns(4 if thorough else 3):
                explore(eng, rep, together_run(fa, fb, rows, at, order, rep), "together", f"{fa}, {fb}, {rows}, {order}")
    for fmt in FMTS:
        for how in AFTER:
            for kw in ({}, {"skip_rows": 1, "take_rows": 2}, {"skip_cols": [0], "take_rows_non_empty": False}):
                explore(eng, rep, after_run(fmt, how, kw, rep), "together", f"{fmt}, {how}, {kw}")
        for same in (({}, {}), ({"skip_cols": [0]}, {"skip_rows": 1}), ({"take_rows": 2}, {"take_rows_non_empty": False})):
            for order in turns(4 if thorough else 3):
                explore(eng, rep, together_run(fmt, fmt, TARGET, None, order, rep, same=same), "together", f"{fmt}, {same}, {order}")
    return rep.finish(
        "the read function is interpreted on two workbooks one after the other in one path, the second read being compared with "
        "the same read on the state the modules have when they are loaded; first reads differ in format, sheet, options, failure "
        "and in how far they get. Two workbooks, and one workbook twice, are iterated in turns and each iteration compared with "
        "one of its own. Lists, dicts and sets passed as arguments are compared before and after the call.",
        minimum=500,
    )

"""C29, C30, C35, C37: numbers of a file become the numbers they stand for."""
from __future__ import annotations

import struct

from sa.report import Report

from .biff import both_scans, explore
from .columns import *  # noqa: F403
from .columns import CHUNK, MODES, A, Arr, BitsV, BitSym, F, FSym, N, Num, PaArr, W, ListV, agree, build, code, double, number_text
from .common import PyExc, Undecided, Violation


def elements(eng, r, n, d, what):
    """Elements of a result that has to be an array of n values of a type."""
    if isinstance(r, PaArr):
        t = {"double": "f8", "int64": "i8", "timestamp[ms]": "i8"}.get(r.t.n, r.t.n)
        if len(r) != n or t != d:
            raise Violation(f"{what}: an array of {len(r)} {r.t.n} comes out for {n} values")
        return r.items(eng)
    if not isinstance(r, Arr):
        raise Undecided(f"{what}: the result is {r!r}")
    if len(r) != n or r.d != d:
        raise Violation(f"{what}: an array of {len(r)} {A.LONG[r.d]} comes out for {n} values")
    return r.items(eng)


def attempt(eng, what, f, *a, **k):
    try:
        return eng.call(f, list(a), k)
    except PyExc as e:
        raise Violation(f"{what} fails with {e.val!r}", e.val.where) from None


# --------------------------------------------------------------------- C29


def rk_value(s):
    b = [(s, i) for i in range(32)]
    v = N.from_bits(b[2:], True) if s.choose_bit(1) else N.from_double([0] * 34 + b[2:])
    if s.choose_bit(0):
        v = N.scale(v, F(1, 100)) if isinstance(v, Num) else v / 100
    return v


def rk_run(n, whole, rep):
    def run(eng):
        syms = [BitSym(eng, f"code {i}", 32) for i in range(n)]
        what = "a list of RK numbers"
        if whole:
            make = eng.getattr(eng.anchor("rxls.chunk.chunk", "chunk"), "xlsb_numeric")
            c = attempt(eng, what, make, ListV([code(s) for s in syms]), is_rknumber=True)
            r = attempt(eng, what, eng.getattr(c, "arrow"))
        else:
            r = attempt(eng, what, eng.anchor("rxls.chunk.casts", "rk_to_f8"), Arr("u4", [W([(s, i) for i in range(32)]) for s in syms]))
        got = elements(eng, r, n, "f8", what)
        for s, g in zip(syms, got):
            agree(eng, g, rk_value(s), f"the value of {s.name}")
        rep.ok("rk", n)

    return run


def c29(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un, tbb in MODES:
        eng = build(repo, un, tbb, CHUNK)
        for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 4):
            explore(eng, rep, rk_run(n, True, rep), "rk", f"{label} build, {n} cells")
        if "rk_to_f8" in eng.modules["rxls.chunk.casts"].env.vars:
            explore(eng, rep, rk_run(2, False, rep), "rk", f"{label} build, conversion of an array")
    return rep.finish(
        "the chunk of RK cells of all three builds is interpreted on codes of 32 symbolic bits; the exact number of each "
        "result (signed integer of 30 bits, double assembled of the upper 30 bits, exact division by 100) is compared with "
        "the number MS-XLSB defines for each of the four types of code.",
        minimum=60,
    )


# --------------------------------------------------------------------- C30

# serials of both calendars: 1900-03-01 is 61 (day 61 of the calendar with the fictitious 1900-02-29, day 60), up to 9999-12-31
ZONES = ((0, 0), (1, 25_568), (60, 25_569), (2_958_466, None))
DAY = 86_400_000


def instant(x, z):
    """The exact number of milliseconds of a serial of a zone."""
    return N.scale(N.sub(x, Num({}, ZONES[z][1])), DAY)


def serial(eng, i, z, form):
    lo, hi = ZONES[z][0], ZONES[z + 1][0]
    if form == "any":
        return N.of(FSym(eng, f"serial {i}", lo, hi, hi_open=True))
    # a day and a part of the day close to a millisecond
    d = N.of(FSym(eng, f"day {i}", lo, hi - 1, integral=True))
    if form == "midnight":
        return N.add(d, N.scale(N.of(FSym(eng, f"noise {i}", 0, F(49, 100))), F(1, DAY)))
    t = N.of(FSym(eng, f"millisecond {i}", 1, DAY - 1, integral=True))
    return N.add(d, N.scale(N.add(t, N.of(FSym(eng, f"noise {i}", F(-49, 100), F(49, 100)))), F(1, DAY)))


def serial_chunk(eng, xs, source, what):
    """The array a chunk of date serials becomes."""
    cls = eng.anchor("rxls.chunk.chunk", "chunk")
    if source == "array":
        vals = [float(x) if not isinstance(x, Num) else x for x in xs]
        return attempt(eng, what, eng.anchor("rxls.chunk.casts", "f8_to_ms_win"), Arr("f8", vals))
    if source == "xlsb":
        data = [double(eng, f"cell {i}", x) if isinstance(x, Num) else struct.pack("<d", x) for i, x in enumerate(xs)]
        c = attempt(eng, what, eng.getattr(cls, "xlsb_numeric"), ListV(data), is_temporal=True)
    else:
        c = attempt(eng, what, eng.getattr(cls, "xlsx_numeric"), ListV([number_text(eng, f"cell {i}", x) for i, x in enumerate(xs)]), is_temporal=True)
    return attempt(eng, what, eng.getattr(c, "arrow"))


def serial_run(zones, form, source, rep):
    def run(eng):
        xs = [serial(eng, i, z, form) for i, z in enumerate(zones)]
        what = f"a column of date serials ({source})"
        got = elements(eng, serial_chunk(eng, xs, source, what), len(xs), "i8", what)
        for x, z, g in zip(xs, zones, got):
            agree(eng, g, N.nearest(eng, instant(x, z)), f"the instant of {x!r}")
        rep.ok("serial", len(xs))

    return run


def known_serials(tier):
    days = (0, 1, 2, 58, 59, 60, 61, 366, 25_567, 25_568, 25_569, 25_570, 36_526, 43_831, 45_000, 73_050, 2_958_465)
    times = (0, 1, 2, 500, 999, 1000, 59_999, 60_000, 3_599_999, 3_600_000, 30_000_001, 43_199_999, 43_200_000, 86_399_000, 86_399_998, 86_399_999)
    if tier != "quick":
        times = (*times, *range(7, DAY, 1_234_567))
    return [(d, t) for d in days for t in times]


def known_run(part, source, rep):
    def run(eng):
        xs = [float(F(d) + F(t, DAY)) for d, t in part]
        what = f"a column of date serials ({source})"
        got = elements(eng, serial_chunk(eng, xs, source, what), len(xs), "i8", what)
        for (d, t), x, g in zip(part, xs, got):
            off = 0 if d < 1 else (25_568 if d < 60 else 25_569)
            agree(eng, g, (d - off) * DAY + t, f"the instant of the serial {x!r} (day {d}, {t} ms)")
        rep.ok("serial", len(xs))

    return run


def c30(pid, tier, repo):
    rep = Report(pid, tier, repo)
    R = "serial"
    known = known_serials(tier)
    for label, un, tbb in MODES:
        eng = build(repo, un, tbb, CHUNK)
        for source in ("xlsb", "xlsx", "array"):
            if source == "array" and "f8_to_ms_win" not in eng.modules["rxls.chunk.casts"].env.vars:
                continue
            for form in ("any", "day", "midnight"):
                for zones in ((0,), (1,), (2,), (0, 2), (1, 2), (2, 1, 0)):
                    explore(eng, rep, serial_run(zones, form, source, rep), R, f"{label} build, {source}, zones {zones}, {form}")
            explore(eng, rep, serial_run((), "any", source, rep), R, f"{label} build, {source}, no serials")
            for i in range(0, len(known), 100):
                explore(eng, rep, known_run(known[i : i + 100], source, rep), R, f"{label} build, {source}, known serials from {i}")
    return rep.finish(
        "chunks of date serials of both formats, in all three builds, are interpreted on serials that are symbols of the "
        "intervals [0, 1), [1, 60) and [60, 2958466) and on a day plus a number of milliseconds plus a noise below half a "
        "millisecond; the affine form under the final rounding is compared with the instant the serial denotes. Known "
        "serials of every kind are compared as well.",
        minimum=1500,
    )


# --------------------------------------------------------------------- C35

CASTS = "rxls.chunk.casts"
INTS = (0, 1, -1, 2, 99, 100, -100, 2**29 - 1, -(2**29), 12345678)
FRACTIONS = (0.01, 0.1, 0.5, 0.29, 1.15, 12.34, 5368709.11, 0.125, 1e-3, 3.141592653589793, 1e22, 2.5e-300, 65536.0625)


def words(eng, n, d, name="code"):
    w = 8 * A.SIZE[d]
    return [W([(s, i) for i in range(w)]) for s in (BitSym(eng, f"{name} {i}", w) for i in range(n))]


def inputs(tier):
    """Families of arguments of the conversions: (function, label, maker of the arguments)."""
    many = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 4)
    for n in many:
        yield "rk_to_f8", f"{n} codes", lambda e, n=n: [Arr("u4", words(e, n, "u4"), ro=True)]
    for zones in ((), (0,), (1,), (2,), (0, 2), (2, 0), (1, 2), (2, 1, 0)):
        yield "f8_to_ms_win", f"zones {zones}", lambda e, z=zones: [Arr("f8", [serial(e, i, x, "any") for i, x in enumerate(z)], ro=True)]
    known = [float(F(d) + F(t, DAY)) for d, t in known_serials(tier)]
    yield "f8_to_ms_win", "known serials", lambda e: [Arr("f8", known)]
    for zones in ((), (0,), (1,), (2,), (0, 2), (2, 0), (1, 2), (2, 1, 0)):
        lim = ((0, DAY - 1), (DAY, 10**13), (-(10**13), -1))
        yield "ms_to_f8_win", f"zones {zones}", lambda e, z=zones: [
            Arr("i8", [N.of(FSym(e, f"instant {i}", *lim[x], integral=True)) for i, x in enumerate(z)])
        ]
    for d in ("i8", "i4", "u8", "u4"):
        yield "i8_to_rk", f"whole numbers of {A.LONG[d]}", lambda e, d=d: [Arr(d, [x for x in INTS if x >= 0 or d[0] == "i"])]
    yield "f8_to_rk", "whole numbers", lambda e: [Arr("f8", [float(x) for x in INTS])]
    yield "f8_to_rk", "fractions", lambda e: [Arr("f8", list(FRACTIONS))]
    for prec in (6, 0, 1, 12):
        for xs in integer_family(prec):
            yield "f8_is_i8", f"{xs} to {prec} digits", lambda e, xs=xs, p=prec: [Arr("f8", list(xs)), p]


def compared(eng, x, y, what):
    if isinstance(y, A.NpBool) or isinstance(y, bool):
        p, q = (v.v if isinstance(v, A.NpBool) else v for v in (x, y))
        if not isinstance(p, bool) or not isinstance(q, bool):
            p, q = eng.truth(p), eng.truth(q)
        if p != q:
            raise Violation(f"{what}: {p} in the accelerated build and {q} in the plain one")
        return
    if not isinstance(y, Arr):
        raise Undecided(f"{what}: the plain build gives {y!r}")
    if not isinstance(x, Arr) or len(x) != len(y) or x.d != y.d:
        raise Violation(f"{what}: {x!r} in the accelerated build and {y!r} in the plain one")
    for i, (p, q) in enumerate(zip(x.items(eng), y.items(eng))):
        if isinstance(p, W) and isinstance(q, W):
            if p.bits == q.bits:
                continue
        agree(eng, A.as_num(eng, p, x.d), A.as_num(eng, q, x.d), f"{what}, element {i}")


def both_run(plain, name, make, label, rep):
    def run(eng):
        what = f"{name} of {label}"
        fast = eng.anchor(CASTS, name)
        args = make(eng)
        try:
            y = eng.call(plain.modules[CASTS].env.vars[name], list(args), {})
        except PyExc as e:
            raise Undecided(f"the plain build: {e.val!r}") from None
        x = attempt(eng, f"{what} in the accelerated build", fast, *args)
        compared(eng, x, y, what)

    return run


def c35(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un, tbb in MODES[1:]:
        plain = build(repo, PLAIN, False, CHUNK)
        eng = build(repo, un, tbb, CHUNK)
        there = [set(e.modules[CASTS].env.vars) for e in (plain, eng)]
        for name, kind, make in inputs(tier):
            if name in there[0] & there[1]:
                explore(eng, rep, both_run(plain, name, make, kind, rep), "conversion", f"{label} build, {name} of {kind}")
        for name in sorted(there[0] & there[1] & {"rk_to_f8", "f8_to_ms_win", "f8_is_i8"}):
            rep.ok("present")
    both_scans(rep, repo, tier)
    return rep.finish(
        "each conversion of the plain build and its counterpart of the accelerated one (compiled in one piece, and as a "
        "generalised ufunc when it can run in parallel) are interpreted on the same symbolic codes, serials and instants, "
        "with the declared element types applied, and the exact results compared; both record scanners are run on the same "
        "symbolic streams, whole, filtered and cut.",
        minimum=900,
    )


# --------------------------------------------------------------------- C37

BIG = 2.0**63


def integer_family(prec):
    """Values of a column by their nearness to integers."""
    near = 10.0**-prec * 0.25
    singles = [0.0, 1.0, -1.0, 3.0, -7.0, 2.0**53, 0.5, -0.5, 1.25, near, -near, 1 + near, 2 - near, -1 - near, near * 8, 1 + near * 8,
               float("inf"), float("-inf"), float("nan"), BIG, -BIG, BIG * 4, BIG - 1024, -BIG + 1024, 1e300, 0.999, -0.001]
    out = [(), *((x,) for x in singles)]
    out += [(1.0, x) for x in singles] + [(x, 2.0) for x in singles]
    out += [(1.0, 2.0, 0.5), (0.5, 1.0, 2.0), (1.0, float("nan"), 2.0), (1.0, float("inf"))]
    return out


def is_near(x, prec):
    """Whether a value is finite and an integer to a precision."""
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return False
    return abs(F(x) - int(x)) * 10**prec <= F(1, 2) and abs(x) < BIG


def part(eng, tag, vals, source, keep):
    """A chunk of numbers of one of the sources; the values it stands for go to keep."""
    cls = eng.anchor("rxls.chunk.chunk", "chunk")
    f = lambda n: eng.getattr(cls, n)  # noqa: E731
    if source == "xlsx":
        keep += vals
        return eng.call(f("xlsx_numeric"), [ListV([number_text(eng, f"{tag} {i}", v) for i, v in enumerate(vals)])], {})
    if source == "text":
        keep += vals
        return eng.call(f("xlsx_strings"), [ListV([number_text(eng, f"{tag} {i}", v) for i, v in enumerate(vals)])], {})
    if source == "xlsb":
        keep += vals
        data = [double(eng, f"{tag} {i}", v) if isinstance(v, Num) else struct.pack("<d", v) for i, v in enumerate(vals)]
        return eng.call(f("xlsb_numeric"), [ListV(data)], {})
    if source == "boolean":
        keep += [1.0, 0.0]
        return eng.call(f("xlsb_numeric"), [ListV([b"\x01", b"\x00"])], {"is_boolean": True})
    if source == "rk":
        codes = [(n << 2 | c) & 0xFFFFFFFF for n, c in vals]
        keep += [n / 100 if c & 1 else float(n) for n, c in vals]
        return eng.call(f("xlsb_numeric"), [ListV([struct.pack("<I", n) for n in codes])], {"is_rknumber": True})
    if source == "null":
        keep += [None]
        return eng.call(f("nulls"), [1], {})
    raise AssertionError(source)


def column_run(parts, prec, rep):
    def run(eng):
        want = []
        chunks = [part(eng, f"part {i}", [N.of(FSym(eng, *v)) if isinstance(v, tuple) and source != "rk" else v for v in vals], source, want)
                  for i, (source, vals) in enumerate(parts)]
        what = f"a column of {[s for s, _ in parts]} to {prec} digits"
        cat = eng.getattr(eng.anchor("rxls.chunk.chunk", "chunk"), "concatenate")
        kw = {} if prec is None else {"float_round_prec": prec}
        r = attempt(eng, what, cat, ListV(chunks), **kw)
        r = A.as_pa(eng, r)
        if len(r) != len(want):
            raise Violation(f"{what}: {len(r)} values come out of {len(want)}")
        vals = [x for x in want if x is not None]
        digits = 6 if prec is None else prec
        if r.t.n == "int64":
            bad = next((x for x in vals if isinstance(x, float) and not is_near(x, digits)), None)
            if bad is None:
                bad = next((x for x in vals if isinstance(x, Num) and not all(isinstance(a, FSym) and a.integral for a in x.c)), None)
            if bad is not None:
                raise Violation(f"{what}: integers are delivered although one of the values {show(vals)} is {show(bad)}")
        elif r.t.n != "double":
            raise Violation(f"{what}: the numbers {show(vals)} are delivered as {r.t.n}")
        for i, (g, x) in enumerate(zip(r.items(eng), want)):
            if (x is None) != (g is None):
                raise Violation(f"{what}: value {i} is {g!r} instead of {x!r}")
            if x is None:
                continue
            if r.t.n == "int64" and isinstance(x, float):
                x = int(x)
            agree(eng, g, x, f"{what}: value {i}")
        rep.ok("column")

    return run


def columns(tier):
    """Columns in parts: (parts, precision)."""
    whole, frac = (1.0, -3.0), (2.0, 0.5)
    for prec in (None, 0, 1, 6, 12):
        for xs in integer_family(6 if prec is None else prec):
            if xs:
                yield [("xlsx", list(xs))], prec
                yield [("xlsb", list(xs))], prec
    odd = [[0.5], [float("nan")], [float("inf")], [float("-inf")], [BIG], [-4 * BIG], [1e-5], [2.0, 1 - 1e-5]]
    firsts = [("xlsx", [1.0]), ("xlsb", [1.0, 2.0]), ("rk", [(5, 2), (-7, 2)]), ("rk", [(500, 3)]), ("boolean", []), ("null", []), ("text", [4.0])]
    for o in odd:
        for s in ("xlsx", "xlsb", "text"):
            for f in firsts:
                for ps in ([f, (s, o)], [(s, o), f], [f, (s, o), f], [("null", []), (s, o), f]):
                    if any(x in ("xlsx", "xlsb", "rk", "boolean") for x, _ in ps):
                        yield ps, None
    for f in firsts:
        for c in (("rk", [(150, 3)]), ("rk", [(5, 2), (1, 3)]), ("rk", [(500, 3)])):
            yield [f, c], None
            yield [c, f], None
            yield [f, c, f], None
    n = ("number", -(2**53), 2**53, True)
    for lo, hi in ((F(1, 1000), F(999, 1000)), (F(1, 100000), F(49, 100)), (F(-999, 1000), F(-1, 1000))):
        q = ("fraction", lo, hi)
        for s in ("xlsx", "xlsb"):
            yield [(s, [n])], None
            yield [(s, [q])], None
            yield [(s, [n, q])], None
            yield [(s, [q, n])], None
            yield [(s, [n]), (s, [q])], None
            yield [(s, [q]), (s, [n])], None
            yield [("null", []), (s, [n]), ("rk", [(1, 2)]), (s, [q])], None
            yield [(s, [n]), ("text", [q])], None


def c37(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un, tbb in MODES if tier != "quick" else MODES[::2]:
        eng = build(repo, un, tbb, CHUNK)
        for parts, prec in columns(tier):
            explore(eng, rep, column_run(parts, prec, rep), "column", f"{label} build, {show(parts)} to {prec} digits")
    return rep.finish(
        "columns in one to four parts of every source of numbers (texts of XLSX, doubles, RK codes and booleans of XLSB, "
        "texts converted to numbers, nulls) are interpreted, the values being integers, values next to one, fractions, "
        "infinite, not a number, too large, or symbols of such intervals; a column of integers may come out only when every "
        "value is one, and all values must be kept.",
        minimum=1500,
    )

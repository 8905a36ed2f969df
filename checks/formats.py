"""C28: which number formats are temporal, in both formats."""
from __future__ import annotations

import itertools
import struct

from sa.bits import BitsV, BitSym, ByteStr, lift
from sa.report import Report

from .biff import explore
from .common import PyExc, Undecided, Violation
from .readers import *  # noqa: F403
from .readers import XLSB, XLSX, build, cells, el, fmt_rec, make, text, xf_rec
from .xlsx import sheet_events

BUILTIN = frozenset([*range(14, 23), 45, 46, 47])
ELAPSED = frozenset(("h", "hh", "m", "mm", "s", "ss"))


def remaining(code):
    """First section of a format code: (raw, without quoted text, escapes and modifiers), or None when malformed."""
    raw = left = ""
    i = 0
    while i < len(code):
        c = code[i]
        if c == ";":
            break
        j = i + 1
        if c in "\\_*":
            j = i + 2
            if j > len(code):
                return None
        elif c == '"':
            j = code.find('"', i + 1) + 1
            if not j:
                return None
        elif c == "[":
            j = code.find("]", i + 1) + 1
            if not j or any(x in code[i:j] for x in '";\\_*'):
                return None
            if code[i + 1 : j - 1].lower() in ELAPSED:
                left += code[i:j]
        else:
            left += c
        raw += code[i:j]
        i = j
    return raw, left


def temporal(code):
    raw, left = remaining(code)
    if raw == "0" or ".00" in raw:
        return False
    return any(c in "dmyhsDMYHS" for c in left)


PIECES = (
    "d", "m", "y", "h", "s", "D", "M", "Y", "H", "S", "yyyy", "0", "00", ".00", "#,##0", "General", "@", "E+", "/", ":", "-", ",", ".", " ", "?", "%",
    "\\d", "\\;", '\\"', "\\\\", "_d", "_)", "*d", "*-", '"d"', '"days"', '""', '";"', '"[h]"', '"\\"', "\\[", "\\]",
    "[Red]", "[$-409]", "[$d]", "[h]", "[mm]", "[H]", "[ss]", "[hm]", "[d]", "[>=100]", "[Magenta]", ";", ";d", ";\n", "\n", "г", "Д", "年",
)
# pieces that take part in longer combinations
CORE = ("d", "S", "0", ".00", " ", "\\m", "_)", "*y", '"h"', '";"', "[Red]", "[h]", "[$-409]", ";", ";d")
REAL = (
    "General", "0", "0.00", "#,##0", "#,##0.00", "0%", "0.00%", "0.00E+00", "# ?/?", "# ??/??", "m/d/yyyy", "d-mmm-yy", "d-mmm", "mmm-yy", "h:mm AM/PM",
    "h:mm:ss AM/PM", "h:mm", "h:mm:ss", "m/d/yyyy h:mm", "#,##0_);(#,##0)", "#,##0_);[Red](#,##0)", "mm:ss", "[h]:mm:ss", "mm:ss.0", "@",
    'yyyy"г."', "dd.mm.yyyy", "[$-F800]dddd\\,\\ mmmm\\ dd\\,\\ yyyy", "[$-409]d/m/yy\\ h:mm\\ AM/PM;@", 'General" days"', '0" h"', "[Red]0;[Blue]-0",
    "_-* #,##0\\ _d_-;-* #,##0\\ _d_-", '#,##0\\ "days"', "[s]", "[SS]", "[hh]:mm", "[m]", "yyyy-mm-dd;@", '"Day "0', '0"d";d', "0;d", "00", "0.0", "[h]0", "#0",
)


def codes(tier):
    out = dict.fromkeys(REAL)
    for n in (1, 2):
        out.update(dict.fromkeys("".join(x) for x in itertools.product(PIECES, repeat=n)))
    core = PIECES if tier == "thorough" else CORE
    out.update(dict.fromkeys("".join(x) for x in itertools.product(core, repeat=3)))
    if tier == "thorough":
        out.update(dict.fromkeys("".join(x) for x in itertools.product(CORE, repeat=4)))
    return [c for c in out if remaining(c) is not None]


def sheet_for(fmt, styles):
    """A row with one number per style."""
    if fmt == XLSX:
        return sheet_events([[x for s in styles for x in el("c", el("v", text("1")), r="A1", s=str(s))]])
    return [(0, b"\0" * 25), *((5, struct.pack("<II", 0, s) + b"\0" * 8) for s in styles), (402, b"")]


def styles_of(eng, fmt):
    """Where the table of styles is built."""
    try:
        f = eng.anchor(f"rxls.reader.{fmt}", f"{fmt.capitalize()}Workbook").lookup("styles")
        f = getattr(f, "fget", f)
        f = getattr(f, "func", f)
        return (f.info.file if hasattr(f.info, "file") else f.module.file, f.node.lineno, f.qualname)
    except Exception:  # noqa: BLE001
        return None


def kinds(eng, wb, n, what):
    mark = eng.anchor("rxls.constants", "REPR_TEMPORAL")
    try:
        got = cells(eng, wb, limit=n)
    except PyExc as e:
        raise Violation(f"{what}: reading fails with {e.val!r}", e.val.where) from None
    if len(got) != n:
        raise Violation(f"{what}: {len(got)} cells are read where {n} are there")
    out = []
    for c in got:
        if not isinstance(c[2], int):
            raise Undecided(f"{what}: the kind of the cell is {c[2]!r}")
        out.append(bool(c[2] & mark))
    return out


def batch_run(fmt, fmts, xfs, want, labels, rep):
    def run(eng):
        w, wb = make(eng, fmt, sheet_for(fmt, range(len(xfs))), styles=(fmts, xfs))
        got = kinds(eng, wb, len(xfs), fmt)
        for g, t, n in zip(got, want, labels):
            if g != t:
                raise Violation(f"{fmt}: {n} {'counts' if g else 'does not count'} as temporal", styles_of(eng, fmt))
        rep.ok("temporal-by-format", len(xfs))

    return run


def parents_run(eng):
    """Cell styles with any parent style: only the parent 0xFFFF marks a style of styles."""
    parents = (0, 1, 0xFF, 0x1FF, 0xFF00, 0xFFFE, 0x00FE, 0xFEFF, 0x7FFF)
    part = [fmt_rec(200, "d"), xf_rec(14, 0xFFFF), xf_rec(0, 0xFFFF)]
    want = []
    for p in parents:
        part += [xf_rec(0, p), xf_rec(200, p), xf_rec(2, p)]
        want += [False, True, False]
    w, wb = make(eng, XLSB, sheet_for(XLSB, range(len(want))), extra={"xl/styles.bin": part})
    got = kinds(eng, wb, len(want), XLSB)
    for i, (g, t) in enumerate(zip(got, want)):
        if g != t:
            raise Violation(f"xlsb: a style with parent {parents[i // 3]:#x} {'counts' if g else 'does not count'} as temporal", styles_of(eng, XLSB))


def any_id_run(fmt):
    """A cell style of unknown format id beside custom formats (XLSB: any 16 bits)."""

    def run(eng):
        s = BitSym(eng, "format id", 16)
        bits = [BitsV(eng, [(s, 8 * i + j) for j in range(8)]) for i in range(2)]
        xf = (47, ByteStr(eng, [*(lift(eng, x) for x in b"\0\0"), *bits, *(lift(eng, x) for x in b"\0" * 12)]))
        part = [fmt_rec(200, "d"), fmt_rec(270, "0"), fmt_rec(0x0EC8, "0.0"), xf_rec(14, 0xFFFF), xf_rec(0), xf, xf_rec(200)]
        w, wb = make(eng, fmt, sheet_for(fmt, range(3)), extra={"xl/styles.bin": part})
        got = kinds(eng, wb, 3, fmt)
        v = s.value()
        want = any(eng.truth(eng.compare("Eq", v, k)) for k in sorted([*BUILTIN, 200]))
        if got != [False, want, True]:
            raise Violation(f"{fmt}: with any format id the styles are temporal: {got}, expected {[False, want, True]}", styles_of(eng, fmt))

    return run


def c28(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    eng.step_limit = 4_000_000
    R = "temporal-by-format"
    cs = codes(tier)
    size = 60
    for fmt in (XLSX, XLSB):
        for b in range(0, len(cs), size):
            part = cs[b : b + size]
            explore(
                eng,
                rep,
                batch_run(fmt, [(164 + i, c) for i, c in enumerate(part)], [164 + i for i in range(len(part))], [temporal(c) for c in part], [f"format {c!r}" for c in part], rep),
                R,
                f"{fmt}, custom formats {b}..",
            )
        # built-in and unknown ids, alone and beside custom formats of similar ids
        for extra, lo in (([], 0), ([(1400, "0.0"), (1401, "d"), (270, "d;0"), (5632, "@")], 0), ([], 65_000)):
            ids = [*range(lo, min(lo + 600, 65_536)), *(x for x in (1400, 1401, 5632, 0x0E00, 0x0E0E, 0x2D2D, 0x100 + 22, 0x2E00, 65_535) if not lo)]
            known = dict(extra)
            want = [temporal(known[i]) if i in known else i in BUILTIN for i in ids]
            explore(eng, rep, batch_run(fmt, extra, ids, want, [f"format id {i} beside {extra}" for i in ids], rep), R, f"{fmt}, ids from {lo} beside {extra}")
        # several styles of a format, formats without a style, in any order
        fm = [(164, "d"), (165, "0"), (166, '"d"'), (167, "[h]"), (168, "h:mm"), (180, "d.00"), (1641, "d"), (1642, "0")]
        for xfs in itertools.product((164, 165, 1640) if tier == "quick" else (0, 14, 164, 165, 166, 167, 180, 1640), repeat=3):
            for fs in (fm, fm[::-1]):
                want = [temporal(dict(fm)[i]) if i in dict(fm) else i in BUILTIN for i in xfs]
                explore(eng, rep, batch_run(fmt, fs, list(xfs), want, [f"style {i} of {xfs}" for i in range(3)], rep), R, f"{fmt}, styles {xfs}")
        for a, b in itertools.product(REAL, repeat=2) if tier == "thorough" else ():
            explore(eng, rep, batch_run(fmt, [(164, a), (165, b)], [165, 164], [temporal(b), temporal(a)], [f"{b!r} after {a!r}", f"{a!r} before {b!r}"], rep), R, f"{fmt}, {a!r}, {b!r}")
    explore(eng, rep, any_id_run(XLSB), R, "xlsb, any format id")
    explore(eng, rep, parents_run, R, "xlsb, parents of styles")
    rep.info["format_codes"] = len(cs)
    return rep.finish(
        "the styles of both readers are interpreted on parts whose custom formats combine pieces of format codes (letters, "
        "escaped, quoted and spacing characters, modifiers, sections) and on built-in ids, for XLSB a symbolic 16-bit id; the "
        "kind of a cell of each style is compared with the rule applied character by character.",
        minimum=2000,
    )

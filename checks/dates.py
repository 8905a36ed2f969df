"""C31: texts parsed as dates."""
from __future__ import annotations

import itertools
import re

from sa.engine import exc_is
from sa.report import Report

from .biff import explore
from .columns import *  # noqa: F403
from .columns import CHUNK, NUMBA, PLAIN, POLARS, A, Arr, F, FSym, N, Num, PaArr, PaT, ListV, agree, build, show
from .common import PyExc, Undecided, Violation

CASTS = "rxls.chunk.casts"
DAY = 86_400_000
FIRST, LAST = -62_135_596_800_000, 253_402_300_799_999
# what is installed: neither, polars, the accelerator
BUILDS = (("plain", PLAIN), ("polars", POLARS), ("accelerated", NUMBA), ("accelerated, polars", ()))


def time_only(fmt):
    return not re.search(r"%[-_0^#]*[EO]?[aAbBcCdDeFgGhjmsuUvVwWxyYC+]", fmt)


def instant_of(eng, i, fmt):
    """What the library makes of text i in a format, and the instant the text denotes."""
    if time_only(fmt):
        t = N.of(FSym(eng, f"time {i} as {fmt}", 0, DAY - 1, integral=True))
        # the day is up to the library
        return N.add(t, N.scale(N.of(FSym(eng, f"day of {i} as {fmt}", -30_000, 30_000, integral=True)), DAY)), t
    x = N.of(FSym(eng, f"instant {i} as {fmt}", FIRST, LAST, integral=True))
    return x, x


def scene(eng, formats, matches):
    """Texts, each with the formats it matches; gives the texts and the instants they denote (None: no format)."""
    dates = eng.path.data.setdefault("dates", {})
    texts, want = [], []
    for i, m in enumerate(matches):
        t = sym(f"text {i}", "str")
        texts.append(t)
        found = {f: instant_of(eng, i, f) for f in m}
        dates[ckey(t)] = {f: x for f, (x, _) in found.items()}
        want.append(next((found[f][1] for f in formats if f in found), None))
    return texts, want


def is_invalid(eng, e):
    return exc_is(e.val.cls, ExtV("pyarrow.ArrowInvalid"))


def parse_run(formats, given, matches, strict, how, rep):
    def run(eng):
        texts, want = scene(eng, formats, matches)
        what = f"texts that match {[list(m) for m in matches]} parsed with {list(formats)}"
        arr = PaArr(PaT("large_string"), texts)
        bad = None in want
        try:
            if how == "array":
                kw = {} if strict is None else {"strict": strict}
                r = eng.call(eng.anchor(CASTS, "mf_strptime"), [arr, given], kw)
            else:
                cls = eng.anchor("rxls.chunk.chunk", "chunk")
                c = eng.call(eng.getattr(cls, "xlsx_strings"), [ListV(texts)], {})
                r = eng.call(eng.getattr(eng.call(eng.getattr(c, "as_temporal"), [given], {}), "arrow"), [], {})
        except PyExc as e:
            if not is_invalid(eng, e):
                raise Violation(f"{what}: the conversion fails with {e.val!r}", e.val.where) from None
            if not bad or strict is False:
                raise Violation(f"{what}: reported as not dates though each matches a format", e.val.where) from None
            rep.ok("text", len(texts))
            return
        if bad and strict is not False:
            raise Violation(f"{what}: a text that matches no format is not reported, the result is {show(r)}")
        if isinstance(r, PaArr):
            if r.t.n != "timestamp[ms]":
                raise Violation(f"{what}: the result is of type {r.t.n}")
        elif not isinstance(r, Arr):
            raise Undecided(f"{what}: the result is {r!r}")
        elif r.d not in ("i8", "M8"):
            raise Violation(f"{what}: the result is of type {A.LONG[r.d]}")
        if len(r) != len(texts):
            raise Violation(f"{what}: {len(r)} instants come out of {len(texts)} texts")
        for t, w, g in zip(texts, want, r.items(eng)):
            if w is None:
                if g is not None and not (isinstance(g, int) and not FIRST <= g <= LAST):
                    raise Violation(f"{what}: {t!r} matches no format and becomes {show(g)}")
                continue
            if g is None:
                raise Violation(f"{what}: {t!r} is not recognised")
            agree(eng, A.as_num(eng, g, "i8"), w, f"{what}: the instant of {t!r}")
        rep.ok("text", len(texts))

    return run


FMT = ("%Y-%m-%d", "%d.%m.%Y %T", "%T", "%H:%M")


def cases(tier):
    lists = [FMT[:1], FMT[1:2], FMT[2:3], FMT[:2], (FMT[1], FMT[2]), (FMT[2], FMT[0]), FMT[:3], (FMT[2], FMT[3], FMT[0])]
    for fs in lists:
        subsets = [tuple(x) for k in range(len(fs) + 1) for x in itertools.combinations(fs, k)]
        for n in (0, 1, 2) if tier == "quick" or len(fs) > 2 else (0, 1, 2, 3):
            for m in itertools.product(subsets, repeat=n):
                yield fs, m
    fs = FMT[:2]
    for m in itertools.product([(), fs[:1], fs[1:]], repeat=3):
        yield fs, m


# --------------------------------------------------------------------- texts read by the default formats

KNOWN = {
    "2024-03-05": 1_709_596_800_000,
    "1970-01-01": 0,
    "1969-12-31": -DAY,
    "1969-12-31 23:59:59": -1000,
    "2024-03-05 10:20:30": 1_709_634_030_000,
    "2024-03-05T10:20:30": 1_709_634_030_000,
    "2024-03-05 10:20": 1_709_634_000_000,
    "05.03.2024": 1_709_596_800_000,
    "05/03/2024": 1_709_596_800_000,
    "05-03-2024": 1_709_596_800_000,
    "05.03.2024 10:20:30": 1_709_634_030_000,
    "05.03.24": 1_709_596_800_000,
    "05/03/24": 1_709_596_800_000,
    "05-03-24": 1_709_596_800_000,
    "01.02.70": 31 * DAY,
    "10:20:30": 37_230_000,
    "00:00:00": 0,
    "23:59": 86_340_000,
    "no date": None,
    "2024": None,
    "32.01.2024": None,
}
NUM = {"d": (2, 1, 31), "m": (2, 1, 12), "Y": (4, 0, 9999), "y": (2, 0, 99), "H": (2, 0, 23), "M": (2, 0, 59), "S": (2, 0, 60), "I": (2, 1, 12)}
LONGER = {"T": "%H:%M:%S", "R": "%H:%M", "r": "%I:%M:%S %p", "F": "%Y-%m-%d", "D": "%m/%d/%y"}


def strptime(text, fmt):
    """Milliseconds a text denotes in a format, as the C library reads it (None: no match)."""
    for k, v in LONGER.items():
        fmt = fmt.replace("%" + k, v)
    got, pos, i = {}, 0, 0
    while i < len(fmt):
        ch = fmt[i]
        if ch == "%":
            i += 1
            if fmt[i] == "p":
                m = re.compile("am|pm", re.IGNORECASE).match(text, pos)
                if not m:
                    return None
                got["p"] = m.group().lower()
                pos = m.end()
            elif fmt[i] in NUM:
                w, lo, hi = NUM[fmt[i]]
                m = re.compile(r"\d{1,%d}" % w).match(text, pos)
                if not m or not lo <= int(m.group()) <= hi:
                    return None
                got[fmt[i]] = int(m.group())
                pos = m.end()
            elif fmt[i] == ".":
                return None
            else:
                raise Undecided(f"the directive %{fmt[i]}")
        elif pos < len(text) and text[pos] == ch:
            pos += 1
        else:
            return None
        i += 1
    if pos != len(text):
        return None
    y = got.get("Y", 1900)
    if "y" in got:
        y = got["y"] + (1900 if got["y"] > 68 else 2000)
    h = got.get("H", got.get("I", 0) % 12 + (12 if got.get("p") == "pm" else 0))
    m, d = got.get("m", 1), got.get("d", 1)
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    months = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if d > months[m - 1]:
        return None
    p = y - 1
    days = p * 365 + p // 4 - p // 100 + p // 400 + sum(months[: m - 1]) + d - 719_163
    return days * DAY + ((h * 60 + got.get("M", 0)) * 60 + got.get("S", 0)) * 1000


class Formats(dict):
    """What a known text denotes in any format."""

    def __init__(self, text):
        self.text = text

    def get(self, fmt, default=None):
        r = strptime(self.text, fmt)
        return default if r is None else r


def default_run(texts, given, rep):
    def run(eng):
        eng.path.data.setdefault("dates", {}).update({ckey(t): Formats(t) for t in texts})
        what = f"the texts {texts} parsed with the default formats"
        want = [KNOWN[t] for t in texts]
        try:
            r = eng.call(eng.anchor(CASTS, "mf_strptime"), [PaArr(PaT("large_string"), list(texts)), *given], {})
        except PyExc as e:
            if is_invalid(eng, e) and None in want:
                rep.ok("known")
                return
            raise Violation(f"{what}: the conversion fails with {e.val!r}", e.val.where) from None
        if None in want:
            raise Violation(f"{what}: no failure is reported, the result is {show(r)}")
        for t, w, g in zip(texts, want, r.items(eng)):
            agree(eng, A.as_num(eng, g, "i8"), w, f"{what}: the instant of {t!r}")
        rep.ok("known")

    return run


def c31(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un in BUILDS if tier != "quick" else BUILDS[:2]:
        eng = build(repo, un, False, CHUNK)
        for fs, m in cases(tier):
            for strict in (None, True, False):
                explore(eng, rep, parse_run(fs, fs, m, strict, "array", rep), "text", f"{label} build, formats {fs}, texts of {m}, strict: {strict}")
            explore(eng, rep, parse_run(fs, ListV(fs), m, None, "chunk", rep), "text", f"{label} build, formats {fs}, chunk of texts of {m}")
        for t in KNOWN:
            for g in ((), (None,), ((),)):
                explore(eng, rep, default_run((t,), g, rep), "known", f"{label} build, {t}")
        for a, b in itertools.permutations(list(KNOWN), 2):
            explore(eng, rep, default_run((a, b), (), rep), "known", f"{label} build, {a} and {b}")
    return rep.finish(
        "the multi-format parser is interpreted with the Arrow and the Polars parser on up to three texts, each matching any "
        "subset of up to three formats (with and without a date), the instants being symbols of all years from 1 to 9999; "
        "the result is compared with the instant of the first matching format. Texts in the documented default notations are "
        "read by a model of strptime.",
        minimum=2000,
    )


_ = (F, Num)

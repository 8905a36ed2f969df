"""C42: where a header that is looked up starts."""
from __future__ import annotations

import itertools
import re

from sa.report import Report

from .biff import explore
from .common import PyExc, Undecided, Violation
from .pairs import Twin
from .tables import FMTS, MODES, STYLES, TableV, build, exc_is, expect_columns, expect_names  # noqa: F401

# texts a cell may have: the looked-up word alone, inside of another text, in another case; other texts
TEXTS = {"H": "=HEAD", "x": "=a HEAD b", "l": "=head", "o": "=other", "m": "=HEA D"}


class Plan(Twin):
    def cell(self, r, j, k):
        return super().cell(r, j, TEXTS.get(k, k))


def first_rows(sh, pattern, size, skipped=0):
    """For each column, the first row in which a header may start."""
    rows = {}
    for (r, j), x in sh.cells.items():
        if r < skipped:
            continue
        if isinstance(pattern, int):
            ok = sh.at[j] == pattern
        else:
            ok = isinstance(getattr(x, "text", None), str) and re.search(pattern, x.text) is not None
        if ok and r - skipped < size:
            rows[j] = min(r, rows.get(j, r))
    return sorted(set(rows.values()))


def lookup_run(fmt, rows, at, pattern, size, header, rep, skip=0, after=0, nulls=None, keep=False):
    def run(eng):
        sh = Plan(eng, fmt, rows, at)
        kw = {"lookup_head": pattern}
        if size is not None:
            kw["lookup_size"] = size
        if skip:
            kw["skip_rows"] = skip
        if after:
            kw["skip_rows_after_header"] = after
        if nulls:
            kw["null_values"] = nulls
            sh.cells = {at: x for at, x in sh.cells.items() if getattr(x, "text", None) not in nulls}
        h = 0 if isinstance(header, list) else int(header)
        may = first_rows(sh, pattern, 30 if size is None else size, skip)
        what = f"{fmt}, sheet {rows} at {sh.at}, header {header}, {', '.join(f'{k}={v!r}' for k, v in kw.items())}"
        try:
            t = sh.read(header, take_rows_non_empty=True, **kw)
        except PyExc as e:
            if not exc_is(e.val.cls, Exception):
                raise
            if may:
                raise Violation(f"{what}: the read fails with {e.val!r} where the header starts at row {may[0]}", e.val.where) from None
            rep.ok("not-found")
            return
        if not isinstance(t, TableV):
            raise Undecided(f"{what}: {t!r} is read")
        if not may:
            raise Violation(f"{what}: {len(t.cols[0].items(eng)) if t.cols else 0} rows come out where no row matches, which has to be an error")
        why = None
        for first in may:
            try:
                if isinstance(header, list):
                    expect_names(what, list(t.names), header)
                elif h:
                    expect_names(what, list(t.names), sh.head(first, h))
                expect_columns(sh, what, t, list(range(first + h + after, sh.n)))
                break
            except Violation as e:
                why = why or e
        else:
            raise Violation(f"{why.args[0]} (the header starts at row {' or '.join(map(str, may))})", *why.args[1:])
        rep.ok("found")

    return run


PATTERNS = ("HEAD", "^HEAD$", "^a HEAD", "HEAD|other", "(?i)^head$", "not there")


def grids(tier):
    """Sheets, by where the cells that match are."""
    # one column beside one that matches nowhere
    g = 0
    for depth in (1, 2, 3, 4):
        for col in itertools.product("Ho.n" if depth > 2 else "Hxlmo.nde", repeat=depth):
            if depth == 4 and tier == "quick" and (col[0] == "H" or col.count("H") > 2):
                continue
            g += 1
            yield tuple(c + "o" for c in (*col, "n")), (None, (1, 2), (0, 1), (1, 3))[g % 4]
    # two columns that may both match, in the order of the sheet and in another one
    for a in itertools.product("Ho.", repeat=3):
        for b in itertools.product("Hx.", repeat=3):
            if tier == "quick" and (a.count("H") > 1 or b.count(".") > 1 or a[0] + b[0] == "oH"):
                continue
            yield tuple(x + y + "t" for x, y in zip((*a, "n"), (*b, "n"))), (0, 4, 5)
    yield ("...", "..o", ".Ho", "H.o", "HHt", "ntt"), (2, 3, 9)
    yield ("...", "...", "..x", "nlo", "dHe", "idu", "uuu"), None
    yield tuple("od" if i != 29 else "Hd" for i in range(31)), None
    yield tuple("od" if i != 30 else "Hd" for i in range(33)), None


def c42(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un, tbb in MODES[:1] if tier == "quick" else MODES:
        eng = build(repo, un, tbb)
        for g, (rows, at) in enumerate(grids(tier)):
            n = len(rows[0])
            given = [f"g{i}" for i in range(n)]
            known = {j for j in range(n) if all(x[j] not in "nd" for x in rows)}
            for fmt in FMTS:
                for i, p in enumerate(PATTERNS):
                    if tier == "quick" and (g + i) % 3:
                        continue
                    for k, size in enumerate((None, 1, 2, 3)):
                        if tier == "quick" and (g + i + k) % 5 and size is not None:
                            continue
                        headers = [0, given]
                        if len(known) == n or not any(c in "nd" for r in rows[:-1] for c in r):
                            headers.append(True)
                        h = headers[(g + i + k) % len(headers)]
                        explore(eng, rep, lookup_run(fmt, rows, at, p, size, h, rep), "lookup", f"{label}, {fmt}, {rows}, {p}, {size}, {h}")
                # a column, by its number
                for j in range(n):
                    if tier == "quick" and (g + j) % 3:
                        continue
                    for size in (None, 1, 2):
                        explore(eng, rep, lookup_run(fmt, rows, at, (at or range(n))[j], size, 0 if (g + j) % 2 else given, rep), "lookup", f"{label}, {fmt}, {rows}, column {j}, {size}")
                if g % 9 == 0:
                    explore(eng, rep, lookup_run(fmt, rows, at, 77, None, 0, rep), "lookup", f"{label}, {fmt}, {rows}, no such column")
    return rep.finish(
        "the read function is interpreted on sheets of both formats that hold matching cells in every arrangement of one and of two "
        "columns, with patterns, columns by number and sizes of the lookup; names and rows of the table tell where the header was "
        "found, which has to be the first match of a column, or none.",
        minimum=500,
    )

"""C04: cell records of XLSB worksheets."""
from __future__ import annotations

import json
import os

from sa.bits import BitsV, BitSym, ByteStr, Seg, lift

from .biff import DATA, explore, wire_form
from .common import Violation
from .readers import *  # noqa: F403
from .readers import PyExc, build, cells
from .readers import XLSB, consts, expect_cells, field, is_null, make, null_arg, tail, text_of, xstring
from sa.report import Report

STYLES = ([(164, "yyyy\\-mm\\-dd"), (165, "0.00")], [0, 14, 164, 165, 2, *[0] * 296, 22])
TEMPORAL = (1, 2, 301)

CELLS = {2: "RK number", 4: "boolean", 5: "real", 6: "string", 7: "shared string", 8: "string formula", 9: "number formula", 10: "boolean formula"}


def cell_record(eng, rid, name="", length=None):
    """A record of the given kind with symbolic column, style, flags and value; also its expected cell."""
    c, cb = field(eng, f"column{name}", 4, 0, 0x3FFF)
    s, sb = field(eng, f"style{name}", 3)
    f, fb = field(eng, f"flags{name}", 1)
    if rid in (6, 8):
        parts, n, seg = xstring(eng, f"text{name}", n=length)
        data = ByteStr(eng, [*cb, *sb, *fb, *parts, tail()])
        return data, c, s, ("text", seg)
    size = {2: 4, 4: 1, 5: 8, 7: 4, 9: 8, 10: 1}[rid]
    v, vb = field(eng, f"value{name}", size)
    rest = [] if rid in (2, 7) else [tail()]
    data = ByteStr(eng, [*cb, *sb, *fb, *vb, *rest])
    return data, c, s, ("bytes", ByteStr(eng, vb), v)


def kind_of(eng, K, rid, temporal):
    return K[{2: "rkdate" if temporal else "rk", 4: "bool", 5: "date" if temporal else "real", 6: "text", 7: "shared"}[{8: 6, 9: 5, 10: 4}.get(rid, rid)]]


def c04_run(rid, mode, length=None):
    def run(eng):
        K = consts(eng)
        data, c, s, val = cell_record(eng, rid, length=length)
        w, wb = make(eng, XLSB, [(0, b"\0" * 25), (rid, data), (402, b"")], shared=[], styles=STYLES, null_values=null_arg(eng, mode))
        try:
            got = cells(eng, wb)
        except PyExc as e:
            raise Violation(f"a {CELLS[rid]} cell fails to read with {e.val!r}", e.val.where) from None
        temporal = any(s.decide_eq(x) for x in TEMPORAL)
        kind = kind_of(eng, K, rid, temporal)
        if val[0] == "text":
            t = text_of(eng, val[1])
            want = [] if is_null(eng, t, mode) else [(0, c.value(), kind, t)]
        else:
            want = [(0, c.value(), kind, val[1])]
        expect_cells(eng, CELLS[rid], got, want)

    return run


def c04(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for rid in CELLS:
        for mode in (None, "callable") if rid in (6, 8) else (None,):
            explore(eng, rep, c04_run(rid, mode), "cell-record", f"{CELLS[rid]} (record {rid}), null values: {mode}")
    for rid in (6, 8):
        for n in (1, 0x7F, 0x80, 0x1FE, 0x1234, 0x7FFF):
            explore(eng, rep, c04_run(rid, None, n), "cell-record", f"{CELLS[rid]} (record {rid}) of {n} characters")
    # ids that are no cell with a value
    with open(os.path.join(DATA, "biff_ids.json"), encoding="utf-8") as io:
        named = set(json.load(io).values())
    ids = [i for i in range(0x8000) if wire_form(i) and i not in CELLS and i not in (0, 402) and (tier == "thorough" or i in named or i < 0x80 or i % 7 == 0)]
    eng.step_limit = 10_000_000

    def others(eng):
        K = consts(eng)
        c, cb = field(eng, "column", 4, 0, 0x3FFF)
        s, sb = field(eng, "style", 3)
        data = ByteStr(eng, [*cb, *sb, Seg("record", 0, 40)])
        _, rk = field(eng, "value", 4)
        last = ByteStr(eng, [*(lift(eng, x) for x in b"\7\0\0\0\0\0\0\0"), *rk])
        recs = [(0, b"\0" * 25)]
        stop = 402
        recs += [(i, data) for i in ids if i != stop]
        recs += [(2, last), (stop, b"")]
        w, wb = make(eng, XLSB, recs, shared=[], styles=STYLES)
        got = cells(eng, wb)
        expect_cells(eng, "records that hold no value", got, [(0, 7, K["rk"], ByteStr(eng, rk))])
        rep.ok("no-other-record", len(ids))

    explore(eng, rep, others, "no-other-record", f"{len(ids)} ids that are no cell records")
    return rep.finish(
        "iter_worksheet of the XLSB reader is interpreted on a sheet with one record of each of the eight kinds whose "
        "column, style, flags, value and text length are symbolic bits; the cells it yields are compared with the fields "
        "MS-XLSB places at those bytes, dates being decided by a styles part read by the reader itself. All other record "
        "ids must yield nothing.",
        minimum=20,
    )

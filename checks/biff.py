"""C01, C02 and C35 (scanner): framing of BIFF12 records; C03: the table of record names."""
from __future__ import annotations

import json
import os

from sa.bits import BitsV, BitSym, ByteStr, InV, OutV, Seg, differ, lift, plus, same_bytes, symbols
from sa.report import Report
from sa.values import *  # noqa: F403

from .common import NUMBA, PLAIN, Pruned, PyExc, Undecided, Violation, collect, engine

CANARY = (0x0191, b"\x05\x83\x01")  # bytes that look like record headers
FIRST = (0x17, b"\x91\x01")


def build(repo, unavailable):
    eng = engine(repo, unavailable, modules=["rxls.biff"])

    def bytesio(e, a, k):
        if a and a[0] != b"":
            return InV(e, a[0] if isinstance(a[0], ByteStr) else to_bs(e, a[0]))
        return OutV(e)

    eng.lib.calls["io.BytesIO"] = bytesio
    eng.step_limit = 4000
    return eng


def to_bs(e, v):
    from sa.bits import to_bytestr

    r = to_bytestr(e, v)
    if r is None:
        raise Undecided(f"bytes expected: {v!r}")
    return r


class Ids:
    ONE, TWO = "one-byte id", "two-byte id"


def make_id(eng, kind):
    if kind == Ids.ONE:
        s = BitSym(eng, "id", 8, 0, 0x7F)
        return s
    s = BitSym(eng, "id", 16, 0x80, 0x7FFF)
    s.known[7] = 1
    s.known[15] = 0
    s.facts()
    return s


def encode(eng, rec_id, data):
    """The encoding MS-XLSB prescribes, by this check itself."""
    parts = []
    rid = lift(eng, rec_id)
    wide = eng.truth(eng.compare("GtE", rid if rid.const() is None else rid.const(), 0x80))
    parts.append(BitsV(eng, [rid.res(i) for i in range(8)]))
    if wide:
        parts.append(BitsV(eng, [rid.res(i) for i in range(8, 16)]))
    n = data.v_len(eng)
    n = lift(eng, n)
    k = 0
    while True:
        last = k == 21 or not (n.decide_ge(1 << (k + 7)))
        bits = [n.res(i) for i in range(k, k + 7 if not last or k < 21 else k + 8)]
        if not last:
            bits = [*bits, 1]
        parts.append(BitsV(eng, bits))
        if last:
            break
        k += 7
    return ByteStr(eng, [*parts, *data.parts])


def payload(eng):
    L = BitSym(eng, "size", 28)
    return L, ByteStr(eng, [Seg("payload", 0, L.value().v_aff() and norm_aff(L.value().v_aff()))])


def attr(eng, r, name):
    return eng.getattr(r, name)


def check_record(eng, r, rec_id, data, what):
    got = attr(eng, r, "rec_id")
    g, w = lift(eng, got), lift(eng, rec_id)
    if g is None:
        raise Undecided(f"id {got!r}")
    if not g.same(w):
        asg = differ(eng, g, w)
        if asg is None:
            raise Undecided("equality of ids")
        raise Violation(f"{what}: the id read is {g!r} where {w!r} was written (e.g. {hexes(asg)})")
    b = attr(eng, r, "data")
    b = to_bs(eng, b)
    if not same(eng, b, data):
        raise Violation(f"{what}: the payload read is {b!r} where {data!r} was written")


def hexes(asg):
    return ", ".join(f"{k}={v:#x}" for k, v in sorted(asg.items()))


def same(eng, a, b):
    if same_bytes(eng, a, b):
        return True
    ea = eng.must_eq(a.length(), 0)
    eb = eng.must_eq(b.length(), 0)
    return ea and eb


class Stream(InV):
    """A stream whose reads of wrong sizes are told apart from reads of unknown sizes."""

    def __init__(self, eng, data, sizes, split=False):
        super().__init__(eng, data, self.partial if split else None)
        self.sizes = sizes
        self.splits = 0
        eng.path.data["watch"] = self.check

    def check(self, n):
        if isinstance(n, BitsV) and n.v_aff() is None:
            for s in self.sizes:
                asg = differ(self.eng, n, s.value())
                if asg is not None and symbols(n) <= {s}:
                    raise Violation(f"the size taken from the header is {n!r} where {s.name} was written (e.g. {hexes(asg)})")

    def m_read(self, eng, a, k):
        if a:
            self.check(a[0])
        return super().m_read(eng, a, k)

    def m_seek(self, eng, a, k):
        self.check(a[0])
        return super().m_seek(eng, a, k)

    def partial(self, stream):
        """End of a bulk read: the stream is handed over in blocks, cut anywhere."""
        e = self.eng
        if self.splits >= 1:
            return None
        self.splits += 1
        p = BitSym(e, f"cut{self.splits}", 30, 1)
        t = norm_aff(p.value().v_aff())
        e.assume(aff_add(to_aff(t), to_aff(self.pos), -1))
        if e.truth(e.compare("GtE", t, self.data.length())):
            return None
        return t


def records(eng, scan, stream, only=MISSING):
    out = []
    kw = {} if only is MISSING else {"only": only}

    def got(r):
        out.append(r)
        if len(out) > 3:
            raise Violation("the scan yields more records than the stream holds")

    try:
        eng.iterate(eng.call(scan, [stream], kw), got)
    except PyExc as e:
        raise Violation(f"the scan fails with {e.val!r}", e.val.where) from None
    return out


def c01_run(kind, split):
    def run(eng):
        rec = eng.anchor("rxls.biff", "record")
        scan = eng.anchor("rxls.biff", "scan_biff")
        dump_sz = eng.anchor("rxls.biff", "dump_sz")
        rid = make_id(eng, kind)
        L, data = payload(eng)
        try:
            r = eng.call(rec, [rid.value(), data], {})
            out = OutV(eng)
            eng.call(eng.getattr(r, "dump"), [out], {})
            wire = out.buf
            direct = to_bs(eng, eng.call(eng.getattr(r, "as_binary"), [], {}))
            size = to_bs(eng, eng.call(dump_sz, [L.value()], {}))
        except PyExc as e:
            raise Violation(f"{kind}: a record of {L.lo:#x}..{L.hi:#x} bytes cannot be written: {e.val!r}", e.val.where) from None
        if not same(eng, wire, direct):
            raise Violation(f"{kind}: dump writes {wire!r} where as_binary gives {direct!r}")
        n_id = 1 if kind == Ids.ONE else 2
        if wire.parts and isinstance(wire.parts[-1], Seg):
            head = ByteStr(eng, wire.parts[n_id:-1])
        else:
            head = ByteStr(eng, wire.parts[n_id:])
        if not same(eng, head, size):
            raise Violation(f"{kind}: dump_sz gives the prefix {size!r} where the record starts with {head!r} (sizes {L.lo:#x}..{L.hi:#x})")
        c = eng.call(eng.getattr(eng.call(rec, list(CANARY), {}), "as_binary"), [], {})
        st = Stream(eng, ByteStr(eng, [*wire.parts, *to_bs(eng, c).parts]), [L], split)
        got = records(eng, scan, st)
        if len(got) != 2:
            raise Violation(f"{kind}: {len(got)} records are read where 2 were written (sizes {L.lo:#x}..{L.hi:#x})")
        check_record(eng, got[0], rid.value(), data, kind)
        check_record(eng, got[1], CANARY[0], to_bs(eng, CANARY[1]), f"record after a {kind}")
        eng.path.data["done"] = (kind, L.lo, L.hi)

    return run


def explore(eng, rep, run, rule, label):
    n = [0]

    def wrap(e):
        run(e)
        n[0] += 1
        if n[0] <= 2:
            rep.sample({"case": label, "decisions": [f"{rep.show_loc(a)}: {b}" for a, b in e.path.trace][:12]})

    res = eng.explore(wrap, max_paths=6000, stop_on_violation=2, time_limit=100)
    rep.ok(rule, n[0])
    collect(rep, rule, eng, res, escaped="{exc} escapes")
    return res


def c01(pid, tier, repo):
    rep = Report(pid, tier, repo)
    for label, un in (("plain", PLAIN), ("accelerated", NUMBA)):
        for kind in (Ids.ONE, Ids.TWO):
            eng = build(repo, un)
            explore(eng, rep, c01_run(kind, un is NUMBA), "round-trip", f"{label} build, {kind}")
    return rep.finish(
        "record.as_binary, record.dump and dump_sz are interpreted abstractly on a record whose id is a vector of "
        "symbolic bits in wire form and whose payload has a symbolic length below 2^28; the byte string they build "
        "(bits traced to id and size) followed by a second record is fed to scan_biff (plain and accelerated, the "
        "latter with the stream cut at an arbitrary point) and ids, payload ranges and the number of records are compared.",
        minimum=20,
    )


# --------------------------------------------------------------------- C02


def c02_filter(kind, split, only_of):
    def run(eng):
        scan = eng.anchor("rxls.biff", "scan_biff")
        rid = make_id(eng, kind)
        L, data = payload(eng)
        a, b = to_bs(eng, FIRST[1]), to_bs(eng, CANARY[1])
        stream = [*encode(eng, FIRST[0], a).parts, *encode(eng, rid.value(), data).parts, *encode(eng, CANARY[0], b).parts]
        want = only_of[kind]
        got = records(eng, scan, Stream(eng, ByteStr(eng, stream), [L], split), SetV(want))
        exp = []
        for i, d, w in ((FIRST[0], a, "first record"), (rid.value(), data, kind), (CANARY[0], b, "last record")):
            v = lift(eng, i)
            if any(v.decide_eq(x) for x in want):
                exp.append((i, d, w))
        if len(got) != len(exp):
            raise Violation(
                f"scan for ids {[hex(x) for x in want]}: {len(got)} records are yielded where the full scan has {len(exp)} "
                f"of them (middle record: id {rid.lo:#x}..{rid.hi:#x}, size {L.lo:#x}..{L.hi:#x})"
            )
        for r, (i, d, w) in zip(got, exp):
            check_record(eng, r, i, d, w)

    return run


def c02_cut(kind, split, filtered):
    def run(eng):
        scan = eng.anchor("rxls.biff", "scan_biff")
        rid = make_id(eng, kind)
        L, data = payload(eng)
        a = to_bs(eng, FIRST[1])
        enc = encode(eng, rid.value(), data)
        heads = [p for p in enc.parts if not isinstance(p, Seg)]
        k = eng.choose(len(heads) + 1, "bytes of the header left", range(len(heads) + 1))
        left = heads[:k]
        if k == len(heads):
            # in the payload
            M = BitSym(eng, "left", 28)
            lt = aff_add(to_aff(L.value()), to_aff(M.value()), -1)
            eng.assume(aff_add(lt, Aff({}, -1)))
            if not eng.possible(to_aff(L.value())):
                raise Pruned
            m = norm_aff(M.value().v_aff())
            left = [*heads, Seg("payload", 0, m)]
        stream = ByteStr(eng, [*encode(eng, FIRST[0], a).parts, *left])
        kw = MISSING
        if filtered == "skipped":
            if rid.value().decide_eq(FIRST[0]):
                raise Pruned
            kw = SetV([FIRST[0]])
        elif filtered == "wanted":
            kw = SetV([FIRST[0], 0x13 if kind == Ids.ONE else 0x9C01 & 0x7FFF])
        got = records(eng, scan, Stream(eng, stream, [L], split), kw)
        if len(got) != 1:
            raise Violation(
                f"a {kind} record cut short (size {L.lo:#x}..{L.hi:#x}, {k} header bytes left) makes the scan yield "
                f"{len(got)} records where 1 is complete"
            )
        check_record(eng, got[0], FIRST[0], a, "record before a cut one")

    return run


def c02(pid, tier, repo):
    rep = Report(pid, tier, repo)
    sets = [
        {Ids.ONE: [0x17], Ids.TWO: [0x17]},
        {Ids.ONE: [0x05], Ids.TWO: [0x0191]},
        {Ids.ONE: [0x05, 0x0191], Ids.TWO: [0x17, 0x0183, 0x0191]},
        {Ids.ONE: [0x00, 0x7F], Ids.TWO: [0x0180, 0x7FFF]},
    ]
    for label, un in (("plain", PLAIN), ("accelerated", NUMBA)):
        for kind in (Ids.ONE, Ids.TWO):
            for s in sets if tier == "thorough" or un is PLAIN else sets[1:3]:
                eng = build(repo, un)
                explore(eng, rep, c02_filter(kind, un is NUMBA, s), "filtered-scan", f"{label}, {kind}, only={s[kind]}")
            for flt in ("none", "skipped", "wanted"):
                eng = build(repo, un)
                explore(eng, rep, c02_cut(kind, un is NUMBA, flt), "cut-record", f"{label}, {kind}, filter: {flt}")
    return rep.finish(
        "scan_biff (plain and accelerated) is interpreted abstractly on streams of three records, the middle one with a "
        "symbolic id and size, filtered by sets of ids, and on streams that end inside the header or the payload of the "
        "last record; what is yielded is compared with the records of the stream.",
        minimum=40,
    )


# --------------------------------------------------------------------- C03

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")


def wire_form(i):
    return isinstance(i, int) and (0 <= i < 0x80 or (i < 0x8000 and i & 0x80))


def c03(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo, PLAIN)
    table = eng.anchor("rxls.biff_enum", "BIFF_ENUM")
    back = eng.anchor("rxls.biff_enum", "BIFF_ENUM_REVERSED")
    if not isinstance(table, DictV) or not isinstance(back, DictV):
        from .common import AnalysisBroken

        raise AnalysisBroken("the tables of record names are no mappings any more")
    t = {k: v for k, v in table.items.values()}
    b = {k: v for k, v in back.items.values()}
    with open(os.path.join(DATA, "biff_ids.json"), encoding="utf-8") as io:
        spec = json.load(io)
    file = os.path.join(repo, "rxls/biff_enum.py")
    loc = (file, 1, "BIFF_ENUM")
    by_id = {}
    for k, v in t.items():
        rep.expect(wire_form(v), "wire-form", f"BIFF_ENUM[{k}]", f"{v!r} is no id a scan produces", loc)
        other = by_id.setdefault(v, k)
        rep.expect(other == k, "one-to-one", f"BIFF_ENUM[{k}]", f"{k} and {other} share the id {v}", loc)
        rep.expect(b.get(v) == k, "inverse", f"BIFF_ENUM[{k}]", f"the name of id {v} is {b.get(v)!r}, not {k}", loc)
    for k, v in b.items():
        rep.expect(t.get(v) == k, "inverse", f"BIFF_ENUM_REVERSED[{k}]", f"the id of {v} is {t.get(v)!r}, not {k}", loc)
    for k, v in spec.items():
        rep.expect(t.get(k) == v, "published", f"BIFF_ENUM[{k}]", f"the id of {k} is {t.get(k)!r}, MS-XLSB says {v}", loc)

    def name_of(eng):
        rec = eng.anchor("rxls.biff", "record")
        s = BitSym(eng, "id", 15)
        v = s.value()
        r = eng.call(rec, [norm_aff(v.v_aff()), b""], {})
        known = eng.lit(Term("haskey", (back, norm_aff(v.v_aff())), "bool"))
        got = eng.getattr(r, "rec_name")
        if known:
            if not (isinstance(got, Term) and got.op == "lookup" and got.args[0] is back):
                raise Violation(f"the name of a known id is {got!r}")
        elif got != "Undefined":
            raise Violation(f"the name of an unknown id is {got!r}, not 'Undefined'")
        eng.path.data["ok"] = 1
        rep.ok("lookup")

    res = eng.explore(name_of)
    collect(rep, "lookup", eng, res, name="record.rec_name", escaped="{exc} escapes from the name lookup")
    for k in list(spec)[:: 1 if tier == "thorough" else 20]:
        def one(eng, k=k):
            rec = eng.anchor("rxls.biff", "record")
            r = eng.call(rec, [t[k], b""], {})
            got = eng.getattr(r, "rec_name")
            r2 = eng.call(eng.getattr(rec, "from_data"), [k], {})
            i2 = eng.getattr(r2, "rec_id")
            if got != k:
                raise Violation(f"the name of {t[k]} is {got!r}, not {k}")
            if i2 != t[k]:
                raise Violation(f"from_data({k!r}) makes a record of id {i2!r}, not {t[k]}")
            rep.ok("lookup", 2)

        if k in t:
            collect(rep, "lookup", eng, eng.explore(one), name=f"record of {k}", escaped="{exc} escapes")
    return rep.finish(
        "the tables BIFF_ENUM and BIFF_ENUM_REVERSED are computed by abstract execution of the module and compared entry by "
        "entry: wire form, one-to-one, inverse of each other, published MS-XLSB numbers (frozen in checks/data/biff_ids.json); "
        "record.rec_name is interpreted on a symbolic id, known and unknown.",
        minimum=2000,
    )


# --------------------------------------------------------------------- C35 (scanner)


def padded(eng, L, n):
    """A size written in n bytes, as many as it needs or more."""
    v = L.value()
    return [BitsV(eng, [*(v.res(i) for i in range(7 * k, 7 * k + 7)), 1 if k < n - 1 else 0]) for k in range(n)]


def both_run(plain, kind, n, only, cut):
    def run(eng):
        fast = eng.anchor("rxls.biff", "scan_biff")
        slow = plain.modules["rxls.biff"].env.vars["scan_biff"]
        rid = make_id(eng, kind)
        L = BitSym(eng, "size", 7 * n, 0)
        data = Seg("payload", 0, norm_aff(L.value().v_aff()))
        v = rid.value()
        head = [BitsV(eng, [v.res(i) for i in range(8 * k, 8 * k + 8)]) for k in range(1 if kind == Ids.ONE else 2)]
        head += padded(eng, L, n)
        a, b = to_bs(eng, FIRST[1]), to_bs(eng, CANARY[1])
        parts = [*encode(eng, FIRST[0], a).parts, *head, data, *encode(eng, CANARY[0], b).parts]
        if cut is not None:
            parts = [*encode(eng, FIRST[0], a).parts, *head[:cut]]
        st = ByteStr(eng, parts)
        kw = MISSING if only is None else SetV(only)
        r = records(eng, slow, Stream(eng, st, [L]), kw)
        g = records(eng, fast, Stream(eng, st, [L], cut is None), kw)
        if len(r) != len(g):
            raise Violation(
                f"a scan (ids {only and [hex(x) for x in only]}) of a {kind} record whose size {L.lo:#x}..{L.hi:#x} takes {n} bytes yields "
                f"{len(g)} records in the accelerated build and {len(r)} in the plain one"
            )
        for i, (x, y) in enumerate(zip(r, g)):
            check_record(eng, y, attr(eng, x, "rec_id"), to_bs(eng, attr(eng, x, "data")), f"record {i + 1} of the accelerated scan")

    return run


def both_scans(rep, repo, tier):
    for kind in (Ids.ONE, Ids.TWO):
        for n in (1, 2, 3, 4):
            for only in (None, [0x17], [0x05, 0x0191] if kind == Ids.ONE else [0x0191, 0x0183]):
                eng = build(repo, NUMBA)
                explore(eng, rep, both_run(build(repo, PLAIN), kind, n, only, None), "scanner", f"{kind}, size of {n} bytes, only={only}")
            for cut in range(n + (1 if kind == Ids.ONE else 2)):
                eng = build(repo, NUMBA)
                explore(eng, rep, both_run(build(repo, PLAIN), kind, n, None, cut), "scanner", f"{kind}, size of {n} bytes, cut after {cut} bytes of the header")


def bounds_run(kind, n, only, cut, rid0=None):
    """The compiled scan alone, over a stream that ends anywhere."""

    def run(eng):
        scan = eng.anchor("rxls.biff", "scan_biff")
        rid = make_id(eng, kind)
        L = BitSym(eng, "size", 7 * n, 0)
        data = Seg("payload", 0, norm_aff(L.value().v_aff()))
        v = rid.value()
        head = [BitsV(eng, [v.res(i) for i in range(8 * k, 8 * k + 8)]) for k in range(1 if kind == Ids.ONE else 2)]
        head += padded(eng, L, n)
        first = encode(eng, FIRST[0], to_bs(eng, FIRST[1])).parts
        if cut == "payload":
            part = BitSym(eng, "rest", 7 * n, 0)
            if eng.truth(eng.compare("GtE", part.value(), L.value())):
                raise Pruned
            parts = [*first, *head, Seg("payload", 0, norm_aff(part.value().v_aff()))]
        elif cut is None:
            parts = [*first, *head, data]
        else:
            parts = [*first, *head[:cut]]
        got = []
        try:
            eng.iterate(eng.call(scan, [Stream(eng, ByteStr(eng, parts), [L], cut is None)], {} if only is None else {"only": SetV(only)}), got.append)
        except PyExc:
            pass  # an error is an answer as well

    return run


def bounds(rep, repo, tier):
    for kind in (Ids.ONE, Ids.TWO):
        for n in (1, 2, 3, 4):
            for only in (None, [0x17]):
                for cut in (None, *range(n + (1 if kind == Ids.ONE else 2))):
                    eng = build(repo, NUMBA)
                    eng.watch_bounds = True
                    explore(eng, rep, bounds_run(kind, n, only, cut), "bounds", f"{kind}, size of {n} bytes, only={only}, cut: {cut}")
                    rep.ok("bounds")

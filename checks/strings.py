"""C32: strings of BIFF12 records; C33: relationships as XML."""
from __future__ import annotations

import struct

from sa.bits import BitsV, BitSym, ByteStr, MemV, Seg, lift
from sa.models import PartV, World
from sa.report import Report

from .biff import explore, to_bs
from .common import PyExc, Undecided, Violation
from .readers import *  # noqa: F403
from .readers import ERRORS, XLSB, build, cells, consts, el, expect_cells, expect_int, field, make, rels_events, text_of, wstr, xstring
from .sheets import table
from .xlsb import STYLES as BSTYLES

ODD = ("", "a", "\ufeffabc", "\ufffeabc", "\ufeff", "\U0001f600", "a\U00010000b", "\x00", "a\x00", "\u0d0a\u2028\r\n", "Лист 1", "\ud7ff\ue000\uffff", " ", "None")


def attr_s(eng, x):
    return eng.getattr(x, "s")


def expect_text(eng, what, got, want):
    if got is want or (is_conc(got) and is_conc(want) and type(got) is type(want) and got == want):
        return
    if isinstance(got, (str, Term, type(None))):
        if isinstance(want, Term) and not eng.truth(want) and got == "":
            return
        raise Violation(f"{what}: the text read is {short(got, 120)}, not {short(want, 120)}")
    raise Undecided(f"{what}: {short(got)}")


def tell(eng, st):
    return eng.call(eng.getattr(st, "tell"), [], {})


def raw(eng, s):
    """A string as records hold it."""
    if s is None:
        return [lift(eng, x) for x in b"\xff\xff\xff\xff"]
    return [lift(eng, x) for x in wstr(s)]


class Case:
    """A string of a record: bytes and text."""

    def __init__(self, eng, kind, name):
        if kind == "any":
            self.parts, n, seg = xstring(eng, name)
            self.text = text_of(eng, seg)
            self.size = ByteStr(eng, self.parts).length()
        else:
            self.parts, self.text = raw(eng, kind), kind
            self.size = len(self.parts)


def loads_run(kinds, how):
    """Strings following each other in a stream, or one at the start of some bytes."""

    def run(eng):
        cls = eng.anchor("rxls.biff_recs", "xstr")
        cs = [Case(eng, k, f"string {i}") for i, k in enumerate(kinds)]
        rest = Seg("what follows", 0, 40)
        if how == "from_binary":
            x = eng.call(eng.getattr(cls, "from_binary"), [ByteStr(eng, [*cs[0].parts, rest])], {})
            expect_text(eng, f"from_binary of {kinds[0]!r}", attr_s(eng, x), cs[0].text)
            return
        st = MemV(eng, ByteStr(eng, [*(p for c in cs for p in c.parts), rest]))
        pos = 0
        for c, k in zip(cs, kinds):
            try:
                x = eng.call(eng.getattr(cls, "load"), [st], {})
            except PyExc as e:
                raise Violation(f"load of {k!r} fails with {e.val!r}", e.val.where) from None
            expect_text(eng, f"load of {k!r}", attr_s(eng, x), c.text)
            if c.text is None or c.text == "":
                v = eng.getattr(x, "value")
                expect_text(eng, f"value of {k!r}", v, "")
            pos = norm_aff(aff_add(to_aff(pos), to_aff(c.size)))
            expect_int(eng, f"load of {k!r}: the position after it", tell(eng, st), pos)

    return run


def dumps_run(kinds, via):
    def run(eng):
        cls = eng.anchor("rxls.biff_recs", "xstr")
        vals = [sym(f"string {i}", "str") if k == "any" else k for i, k in enumerate(kinds)]
        st = MemV(eng, ByteStr(eng, [Seg("what precedes", 0, 12)]))
        try:
            eng.call(eng.getattr(st, "seek"), [12], {})
            for v in vals:
                x = eng.call(eng.getattr(cls, "from_string"), [v], {}) if via else eng.call(cls, [v], {})
                eng.call(eng.getattr(x, "dump"), [st], {})
            ends = tell(eng, st)
            eng.call(eng.getattr(st, "write"), [ByteStr(eng, [Seg("what follows", 0, 40)])], {})
            eng.call(eng.getattr(st, "seek"), [12], {})
        except PyExc as e:
            raise Violation(f"dump of {kinds!r} fails with {e.val!r}", e.val.where) from None
        for k, v in zip(kinds, vals):
            try:
                x = eng.call(eng.getattr(cls, "load"), [st], {})
            except PyExc as e:
                raise Violation(f"{k!r} written and read back: load fails with {e.val!r}", e.val.where) from None
            expect_text(eng, f"{k!r} written and read back", attr_s(eng, x), v)
        expect_int(eng, f"{kinds!r} written and read back: the position after them", tell(eng, st), ends)

    return run


def sheet_record_run(kinds):
    def run(eng):
        cls = eng.anchor("rxls.biff_recs", "BrtBundleSh")
        rec = eng.anchor("rxls.biff", "record")
        a, ab = field(eng, "state", 4)
        b, bb = field(eng, "id", 4)
        cs = [Case(eng, k, f"string {i}") for i, k in enumerate(kinds)]
        r = eng.call(rec, [156, ByteStr(eng, [*ab, *bb, *cs[0].parts, *cs[1].parts])], {})
        try:
            x = eng.call(eng.getattr(cls, "loadr"), [r], {})
        except PyExc as e:
            raise Violation(f"the record of a sheet fails to load with {e.val!r}", e.val.where) from None
        expect_int(eng, "hsState", eng.getattr(x, "hsState"), a.value())
        expect_int(eng, "iTabID", eng.getattr(x, "iTabID"), b.value())
        for n, c in zip(("strRelID", "strName"), cs):
            expect_text(eng, n, attr_s(eng, eng.getattr(x, n)), c.text)

    return run


def sites_run(s):
    """Every place of a workbook that holds a string: sheet names, items, cells, formula results."""

    def run(eng):
        K = consts(eng)
        if s == "any":
            parts, n, seg = xstring(eng, "text of the item", prefix=(0,))
            item, t = ByteStr(eng, parts), text_of(eng, seg)
            cps, n2, seg2 = xstring(eng, "text of the cell")
            ct = text_of(eng, seg2)
            name = "One"
        else:
            item, t = b"\0" + wstr(s) + b"\xff\xfe", s
            cps, ct = [lift(eng, x) for x in wstr(s) + b"a\0b\0"], s
            name = s
        c = lambda rid, col: (rid, ByteStr(eng, [*(lift(eng, x) for x in struct.pack("<II", col, 0)), *cps]))  # noqa: E731
        sheet = [(0, b"\0" * 25), c(6, 0), c(8, 1), (7, struct.pack("<III", 2, 0, 0)), (402, b"")]
        w, wb = make(eng, XLSB, sheet, shared=[(19, item)], styles=BSTYLES, sheets=[(name, "rId1")], null_values=Builtin("nothing is null", lambda e, a, k: False))
        got_items = eng.getattr(wb, "shared")
        for v in (t, ct):
            if isinstance(v, Term) and eng.truth(eng.contains(frozenset(ERRORS), v)):
                return
        expect_items(eng, f"item {s!r}", got_items, [t])
        try:
            got = cells(eng, wb, sheet=name)
        except PyExc as e:
            raise Violation(f"sheet {name!r} fails with {e.val!r}", e.val.where) from None
        expect_cells(eng, f"text {s!r}", got, [(0, 0, K["text"], ct), (0, 1, K["text"], ct), (0, 2, K["shared"], b"\0\0\0\0")])

    return run


def expect_items(eng, what, got, want):
    xs = eng.to_list(got)
    if len(xs) != len(want):
        raise Violation(f"{what}: the table has {len(xs)} entries")
    for g, w in zip(xs, want):
        expect_text(eng, what, g, w)


def formats_run(code, temporal):
    def run(eng):
        K = consts(eng)
        styles = ([(164, "General")], [0, 165])
        junk = struct.pack("<H", 165) + wstr(code) + "yy".encode("utf-16-le")
        w, wb = make(
            eng, XLSB, [(0, b"\0" * 25), (2, struct.pack("<II", 0, 1) + b"\1\2\3\4"), (402, b"")], styles=styles,
            before=lambda w: w.parts["xl/styles.bin"].insert(0, (44, junk)),
        )
        got = cells(eng, wb)
        expect_cells(eng, f"number format {code!r}", got, [(0, 0, K["rkdate" if temporal else "rk"], b"\1\2\3\4")])

    return run


def c32(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    kinds = ["any", None, *ODD]
    R = "utf-16 text"
    for k in kinds:
        explore(eng, rep, loads_run((k,), "from_binary"), R, f"from_binary {k!r}")
        for second in ("any", None, "", "\ufeffx"):
            explore(eng, rep, loads_run((k, second), "load"), R, f"load {k!r}, {second!r}")
        for via in (False, True):
            if not (via and k is None):
                explore(eng, rep, dumps_run((k, "any"), via), R, f"dump {k!r}")
                explore(eng, rep, dumps_run(("any", k, None, "z"), via), R, f"dump {k!r} after another")
        if k is not None:
            for other in ("any", "x", "\ufeffr"):
                explore(eng, rep, sheet_record_run((k, other)), R, f"sheet record {k!r}, {other!r}")
                explore(eng, rep, sheet_record_run((other, k)), R, f"sheet record {other!r}, {k!r}")
            explore(eng, rep, sites_run(k), R, f"workbook with {k!r}")
    for code, t in (("yyyy", True), ("\ufeffyyyy", True), ("\ufffeyyyy", True), ("General", False), ("@", False), ("", False), ("\u0079\u0079", True), ("\u7900\u7900", False), ("[$\U0001f600-409]d", True), ("[$\U0001f600]0", False)):
        explore(eng, rep, formats_run(code, t), R, f"format {code!r}")
    return rep.finish(
        "xstr.load, xstr.from_binary, xstr.dump, BrtBundleSh.loadr and the strings of shared items, cells, formats and sheets "
        "are interpreted on strings of symbolic length and content and on strings with byte-order marks, surrogate pairs and "
        "line ends; texts are terms of code units and codec, so another codec, another extent or another position is seen "
        "whatever the content.",
        minimum=200,
    )


# --------------------------------------------------------------------- C33

SPECIAL = "&<>\"'\t\n\r "
ENT = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}


class Sink(AbsVal):
    kind = "stream"

    def __init__(self):
        self.parts = []

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        if name == "write":
            return Builtin(name, self._write)
        if name == "writelines":
            return Builtin(name, lambda e, a, k: e.iterate(a[0], lambda x: self._write(e, [x], {})))
        if name == "tell":
            return Builtin(name, lambda e, a, k: 0)
        if name == "flush":
            return Builtin(name, lambda e, a, k: None)
        raise Undecided(f"stream.{name}")

    def _write(self, eng, a, k):
        self.add(eng, a[0])
        return sym("count", "int")

    def add(self, eng, v):
        if isinstance(v, ByteStr) and v.const() is not None:
            v = v.const()
        if isinstance(v, bytes):
            try:
                self.parts.append(v.decode())
            except UnicodeDecodeError:
                raise Violation("what is written is not UTF-8") from None
        elif isinstance(v, Term) and v.op == "cat" and v.kind == "bytes":
            for x in v.args:
                self.add(eng, x)
        elif isinstance(v, Term) and v.op == "encode":
            enc = v.args[1]
            err = v.args[2] if len(v.args) > 2 else "strict"
            if enc != "utf-8" and not (err == "xmlcharrefreplace" and enc in ("ascii", "iso8859-1")):
                raise Violation(f"the relationship is written in {enc} (errors: {err}), which is not what an XML part without declaration is read in")
            if enc == "utf-8" and err not in ("strict", "xmlcharrefreplace", "surrogatepass"):
                raise Violation(f"characters that cannot be written are lost (errors: {err})")
            s = v.args[0]
            self.parts += s.args if isinstance(s, Term) and s.op == "cat" else (s,)
        elif isinstance(v, (str, Term)):
            raise Violation(f"{short(v)} is written to a binary stream") if isinstance(v, str) else Undecided(f"write of {short(v)}")
        else:
            raise Undecided(f"write of {short(v)}")


def resolve(s):
    """The value of a piece of attribute text."""
    out, i = "", 0
    while i < len(s):
        c = s[i]
        if c == "&":
            j = s.find(";", i)
            n = s[i + 1 : j] if j > 0 else None
            if n is None:
                raise Violation("an ampersand is written as it is")
            if n.startswith("#x"):
                out += chr(int(n[2:], 16))
            elif n.startswith("#"):
                out += chr(int(n[1:]))
            elif n in ENT:
                out += ENT[n]
            else:
                raise Violation(f"unknown entity {n}")
            i = j + 1
            continue
        if c == "<":
            raise Violation("a less-than sign is written as it is")
        out += " " if c in "\t\n\r" else c
        i += 1
    return out


def attribute_piece(t, quote):
    """The text an unknown piece of an attribute value is read back as; every character is considered."""
    m = dict(t.args[1]) if t.op == "charmap" else {}
    src = t.args[0] if t.op == "charmap" else t
    if not isinstance(src, Term) or src.op != "sym":
        raise Undecided(f"attribute text {short(t)}")
    for c in sorted({*SPECIAL, *m}):
        w = m.get(c, c)
        if quote in w:
            raise Violation(f"a value with {c!r} ends its attribute early: the quotation mark is written as it is")
        try:
            back = resolve(w)
        except Violation as v:
            raise Violation(f"a value with {c!r} cannot be read back: {v.msg}") from None
        if back != c:
            raise Violation(f"{c!r} in a value is read back as {back!r}")
    return src


def attribute(eng, items, quote):
    out, lit = [], ""
    for x in [*items, None]:
        if isinstance(x, str):
            lit += x
            continue
        if lit:
            out.append(resolve(lit))
            lit = ""
        if x is not None:
            out.append(attribute_piece(x, quote))
    return eng.cat(out, "str")


def xml_events(eng, parts):
    """Events of the elements written."""
    xs = []
    for p in parts:
        xs += list(p) if isinstance(p, str) else [p]
    i = 0
    evs, open_ = [], []

    def skip():
        nonlocal i
        while i < len(xs) and isinstance(xs[i], str) and xs[i] in " \t\r\n":
            i += 1

    def word(stop):
        nonlocal i
        w = ""
        while i < len(xs) and isinstance(xs[i], str) and xs[i] not in stop:
            w += xs[i]
            i += 1
        if i < len(xs) and not isinstance(xs[i], str):
            raise Violation(f"{short(xs[i])} is written outside of an attribute value")
        return w

    def bad(what):
        raise Violation(f"what is written is not well-formed: {what} at {''.join(x if isinstance(x, str) else '{' + short(x) + '}' for x in xs)[:120]}")

    while True:
        skip()
        if i >= len(xs):
            break
        if xs[i] != "<":
            bad("text outside of the element" if isinstance(xs[i], str) else "a value outside of the element")
        i += 1
        if xs[i] == "?":
            word(">")
            i += 1
            continue
        if xs[i] == "/":
            i += 1
            n = word(" >")
            skip()
            if i >= len(xs) or xs[i] != ">" or not open_ or open_.pop() != n:
                bad("end tag")
            i += 1
            evs.append(("end", n))
            continue
        name = word(" \t\r\n/>")
        at = {}
        while True:
            before = i
            skip()
            if i >= len(xs):
                bad("unclosed tag")
            if xs[i] in (">", "/"):
                break
            if i == before:
                bad("attributes without a blank between them")
            key = word("= \t\r\n<>/")
            skip()
            if i >= len(xs) or xs[i] != "=" or not key:
                bad("attribute without a value")
            i += 1
            skip()
            if i >= len(xs):
                bad("attribute without a value")
            q = xs[i]
            if isinstance(q, Term) and q.op == "quoteattr":
                v = q.args[0]
                i += 1
            elif q in ("'", '"'):
                j = i + 1
                while j < len(xs) and xs[j] != q:
                    j += 1
                if j >= len(xs):
                    bad("unclosed attribute value")
                v = attribute(eng, xs[i + 1 : j], q)
                i = j + 1
            else:
                bad("attribute value without quotation marks")
            if key in at:
                bad(f"second attribute {key}")
            at[key] = v
        if xs[i] == "/":
            i += 1
            if i >= len(xs) or xs[i] != ">":
                bad("tag")
            i += 1
            evs += [("start", name, at), ("end", name)]
        else:
            i += 1
            open_.append(name)
            evs.append(("start", name, at))
    if open_:
        bad("unclosed element")
    return evs


def scan(eng, events):
    cls = eng.anchor("rxls.rels", "Relationship")
    World(eng, {"rels": events})
    try:
        got = eng.call(eng.getattr(cls, "scan_xml"), [PartV(eng, "rels")], {})
    except PyExc as e:
        raise Violation(f"reading relationships fails with {e.val!r}", e.val.where) from None
    return [tuple(eng.getattr(x, n) for n in ("Id", "Type", "Target")) for x in eng.to_list(got)]


def value(eng, what, kind, bare=False):
    """An attribute's value: unknown, or a given one."""
    if kind != "any":
        return kind
    t = sym(what, "str")
    if bare:
        eng.path.data.setdefault("without", {})[t] = "/"
    return t


def expect_rels(what, got, want):
    if len(got) != len(want):
        raise Violation(f"{what}: {len(got)} relationships are read where {len(want)} are there")
    for g, w in zip(got, want):
        for n, a, b in zip(("id", "type", "target"), g, w):
            if a is not b and not (is_conc(a) and is_conc(b) and a == b):
                if isinstance(a, (str, Term, type(None))):
                    raise Violation(f"{what}: the {n} read back is {short(a, 120)}, not {short(b, 120)}")
                raise Undecided(f"{what}: {short(a)}")


def roundtrip_run(kinds, count):
    def run(eng):
        cls = eng.anchor("rxls.rels", "Relationship")
        evs, want = [], []
        for i in range(count):
            v = tuple(value(eng, f"{n} {i}", k, n == "type") for n, k in zip(("id", "type", "target"), kinds))
            try:
                r = eng.call(cls, list(v), {})
                out = Sink()
                eng.call(eng.getattr(r, "dump_xml"), [out], {})
            except PyExc as e:
                raise Violation(f"a relationship cannot be written: {e.val!r}", e.val.where) from None
            evs += xml_events(eng, out.parts)
            want.append(v)
        got = scan(eng, evs if count == 1 else el("Relationships", evs))
        expect_rels("written and read back", got, want)

    return run


def part_run(shape):
    def run(eng):
        want, evs = [], []
        ns = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
        for i, s in enumerate(shape):
            same = s == "same"
            v = [value(eng, f"{n} {0 if same else i}", "any", n == "type") for n in ("id", "type", "target")]
            if s == "other tag":
                evs += el("Other", **{"Id": v[0], "Type": v[1], "Target": v[2]})
                continue
            more = {"TargetMode": "External"} if s == "external" else {}
            evs += [("text", "\n")] + el("Relationship", **{"Target": v[2], "Type": eng.cat([ns, v[1]], "str"), **more, "Id": v[0]})
            want.append(tuple(v))
        expect_rels(f"part with {shape}", scan(eng, el("Relationships", evs)), want)

    return run


def c33(pid, tier, repo):
    import itertools

    rep = Report(pid, tier, repo)
    eng = build(repo)
    R = "relationship-kept"
    odd = ("any", "", "rId1", "a&b", "x<y>", 'q"uo\'te', '"', "'", "&amp;", "a/b/../c d", "\t\n\r", "Лист", "\U0001f600", "%20", "{}", "{0}", "%s")
    for k in odd:
        for pos in range(3):
            ks = ["any", "any", "any"]
            ks[pos] = k
            if pos == 1 and "/" in k:
                continue
            for count in (1, 2):
                explore(eng, rep, roundtrip_run(ks, count), R, f"round trip of {ks}")
        explore(eng, rep, roundtrip_run((k, "worksheet", k), 1), R, f"round trip of {k!r}")
    for n in range(4):
        for shape in itertools.product(("plain", "same", "external", "other tag"), repeat=n):
            explore(eng, rep, part_run(shape), R, f"part with {shape}")
    return rep.finish(
        "dump_xml is interpreted on relationships with symbolic id, type and target; what it writes is parsed as XML with the "
        "unknown pieces kept as terms, every character that XML treats specially being followed through the escaping; the "
        "events drive scan_xml and the fields must be the same terms. Parts of up to three relationships are scanned in order.",
        minimum=150,
    )

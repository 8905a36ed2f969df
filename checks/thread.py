"""C09, C10, C11: the background parse of XLSX worksheets."""
from __future__ import annotations

from sa.engine import Engine, Env, ExtV, StopConsume
from sa.models import Deadlock, QueueV, World
from sa.report import Report

from .biff import explore
from .common import PLAIN, PyExc, Undecided, Violation
from .readers import *  # noqa: F403
from .readers import XLSX, build, cells, consts, el, expect_cells, install, make, start, text
from .xlsx import sheet_events, t_el
from .xlsx import STYLES


def sheet(rows=3, cols=2):
    """Events of a sheet and, per cell, (row, col, index of the event that completes it)."""
    evs = [start("worksheet"), start("sheetData")]
    done = []
    for r in range(rows):
        evs.append(start("row", r=str(r + 1)))
        for c in range(cols):
            evs += el("c", el("v", text(f"v{r}{c}")), r="ABC"[c] + str(r + 1), t="str")
            done.append((r, c, len(evs) - 1))
        evs.append(end("row"))
    evs += [end("sheetData"), end("worksheet")]
    return evs, done


def end(tag):
    return ("end", tag)


class Feed:
    """Drives the parser with the events, failing before a given one; knows where the parse is."""

    def __init__(self, evs, fault_at=None, exc=None):
        self.evs, self.fault_at, self.exc = evs, fault_at, exc
        self.at = -1

    def __iter__(self):
        for i in range(len(self.evs) + 1):
            self.at = i
            if i == self.fault_at:
                raise PyExc(self.exc)
            if i < len(self.evs):
                yield self.evs[i]

    def __call__(self, eng, cb):
        for ev in self:
            cb(ev)


EXCS = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "ExpatError": ExtV("pyexpat.ExpatError"), "GeneratorExit": GeneratorExit}


class Case:
    """One way the background parse goes; ``run`` returns what the consumer saw."""

    def __init__(self, name, fault=None, skip=0, take=0, rows=3):
        self.name, self.fault, self.skip, self.take, self.rows = name, fault, skip, take, rows

    def run(self, eng, stop_after=None, made=None):
        evs, done = sheet(self.rows)
        feed = Feed(evs)
        kw = {}
        if self.skip:
            kw["skip_rows"] = self.skip
        if self.take:
            kw["take_rows"] = self.take
        state = {"raised": None, "at": None, "n": 0, "cls": None}
        null = MISSING

        def raiser(what, result):
            def f(e, a, k):
                state["n"] += 1
                if self.limit is not None and state["n"] == self.limit + 1:
                    x = ExcV(EXCS[self.fault[1]], (f"{what} fails",))
                    x.where = e.loc
                    state["raised"], state["at"] = x, feed.at
                    raise PyExc(x)
                return result

            return Builtin(what, f)

        self.limit = None
        kind = self.fault[0] if self.fault else None
        if kind == "parser":
            k = eng.choose(len(evs) + 1, "event before which the parser fails", range(len(evs) + 1))
            x = ExcV({"ExpatError": ExtV("pyexpat.ExpatError"), "BadZipFile": ExtV("zipfile.BadZipFile"), "OSError": OSError}[self.fault[1]], ("fault",))
            feed.fault_at, feed.exc = k, x
            state["raised"], state["at"] = x, k
        elif kind == "cut":
            k = eng.choose(len(evs), "event before which the part ends", range(len(evs)))
            x = ExcV(ExtV("pyexpat.ExpatError"), ("no element found",))
            evs[k:] = [("cut", x)]
            state["raised"], state["at"] = x, k
        elif kind == "callback":
            self.limit = eng.choose(self.rows + 1, "call at which the callback raises", range(self.rows + 1))
            kw["row_callback"] = raiser("row callback", None)
        elif kind == "predicate":
            self.limit = eng.choose(len(done), "call at which the null predicate raises", range(len(done)))
            null = raiser("null predicate", False)
        elif kind == "attribute":
            k = eng.choose(len(done), "cell without reference", range(len(done)))
            i = [j for j, e in enumerate(evs) if e[0] == "start" and e[1] == "c"][k]
            evs[i] = ("start", "c", {"t": "str"})
            state["cls"], state["cell"] = KeyError, k
        elif kind == "good callback":
            kw["row_callback"] = raiser("row callback", None)
        w, wb = make(eng, XLSX, feed, shared=[], styles=STYLES, null_values=null)
        if made is not None:
            made(w, wb)
        out = {"cells": [], "exc": None, "world": w, "state": state, "done": done, "feed": feed}

        def each(c):
            out["cells"].append(c)
            if stop_after is not None and len(out["cells"]) >= stop_after:
                raise StopConsume

        try:
            cells(eng, wb, each=each, **kw)
        except PyExc as e:
            out["exc"] = e.val
        if kind == "attribute" and self.taken(done[state["cell"]]):
            state["at"] = next(j for j, e in enumerate(evs) if e[0] == "start" and e[2] == {"t": "str"})
            state["raised"] = KeyError
        return out

    def taken(self, d):
        return d[0] >= self.skip and (not self.take or d[0] - self.skip <= self.take)

    def expected(self, out):
        at = out["state"]["at"]
        return [(d[0] - self.skip, d[1], None, f"v{d[0]}{d[1]}".encode()) for d in out["done"] if self.taken(d) and (at is None or d[2] < at)]

    def reached(self, out):
        """Whether the fault lies before the end of what is read."""
        at = out["state"]["at"]
        if at is None:
            return False
        if self.take:
            last = [d for d in out["done"] if self.taken(d)]
            # the parse ends with the row that completes the request
            full = any(d[0] - self.skip > self.take for d in out["done"]) or max(d[0] for d in out["done"]) - self.skip == self.take
            if full and at > last[-1][2] + 1:
                return None
        return True


FAULTS = [
    Case("malformed XML", ("parser", "ExpatError")),
    Case("malformed XML, rows skipped", ("parser", "ExpatError"), skip=1),
    Case("malformed XML, rows limited", ("parser", "ExpatError"), take=1, rows=4),
    Case("malformed XML, rows skipped and limited", ("parser", "ExpatError"), skip=1, take=1, rows=4),
    Case("cut off part", ("cut", None)),
    Case("cut off part, rows skipped", ("cut", None), skip=1),
    Case("damaged archive", ("parser", "BadZipFile")),
    Case("failing stream", ("parser", "OSError")),
    *(Case(f"row callback raising {x}", ("callback", x)) for x in EXCS),
    Case("row callback raising, rows skipped", ("callback", "ValueError"), skip=2),
    *(Case(f"null predicate raising {x}", ("predicate", x)) for x in EXCS),
    Case("null predicate raising, rows limited", ("predicate", "ValueError"), take=1),
    Case("missing attribute", ("attribute", None)),
    Case("missing attribute, rows skipped", ("attribute", None), skip=1),
]
ENDS = [
    Case("end of sheet"),
    Case("end of an empty sheet", rows=0),
    Case("row limit", take=1, rows=4),
    Case("row limit beyond the sheet", take=9),
    Case("all rows skipped", skip=5),
    Case("skipped and limited", skip=1, take=1, rows=5),
    Case("good callback", ("good callback", None), take=1),
]


def same_exc(got, want):
    if isinstance(want, ExcV):
        return got is want or (got.cls is want.cls and got.args == want.args)
    return got.cls is want


def c09_run(case):
    def run(eng):
        try:
            out = case.run(eng)
        except Deadlock:
            raise Undecided("the consumer waits forever (C10)") from None
        reached = case.reached(out)
        want = case.expected(out)
        if reached:
            if out["exc"] is None:
                raise Violation(f"{case.name} (before event {out['state']['at']}): the iterator ends after {len(out['cells'])} cells as though the sheet were complete")
            if not same_exc(out["exc"], out["state"]["raised"]):
                raise Violation(f"{case.name} (before event {out['state']['at']}): the consumer gets {out['exc']!r} instead of {out['state']['raised']!r}", out["exc"].where)
            expect_cells(eng, f"{case.name} (before event {out['state']['at']}), cells before the failure", out["cells"], want)
        elif reached is False:
            if out["exc"] is not None:
                raise Violation(f"{case.name}: the iterator fails with {out['exc']!r} though nothing failed", out["exc"].where)
            expect_cells(eng, case.name, out["cells"], want)

    return run


def c09(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for case in [*FAULTS, *ENDS]:
        explore(eng, rep, c09_run(case), "failure-reported", case.name)
    return rep.finish(
        "iter_worksheet of the XLSX reader is interpreted, worker included, with a failure of the parser before every single "
        "event of a sheet, of the row callback and the null predicate at every call (ordinary and base exceptions) and a "
        "missing cell reference at every cell; the consumer must get the cells completed before and then that exception.",
        minimum=150,
    )


# --------------------------------------------------------------------- C10


def c10_run(case, stop_after=None):
    def run(eng):
        try:
            out = case.run(eng, stop_after)
        except Deadlock as d:
            raise Violation(f"{case.name}: {d.msg}", d.loc) from None
        w = out["world"]
        for q in w.queues:
            bounded = isinstance(q.maxsize, int) and q.maxsize > 0
            if stop_after is None:
                if q.items:
                    raise Violation(f"{case.name}: {len(q.items)} items are left in the queue after its end marker: {short(q.items, 80)}", q.where)
            elif bounded and q.items and getattr(w, "blocking_put", None):
                raise Violation(f"{case.name}, abandoned after {stop_after} cells: the parse blocks on a full queue of {q.maxsize} items", w.blocking_put)

    return run


def c10(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build(repo)
    for case in [*ENDS, *FAULTS]:
        explore(eng, rep, c10_run(case), "ends", case.name)
        for n in (1, 3):
            explore(eng, rep, c10_run(case, n), "abandoned", f"{case.name}, abandoned after {n} cells")
    return rep.finish(
        "iter_worksheet of the XLSX reader is interpreted, worker included, with every way the parse can end (end of sheet, "
        "row limit, failure of the parser before every event, of the callback or the null predicate at every call); the "
        "consumer must meet the end marker (a get from a queue nobody will fill is a deadlock), nothing may follow it, and a "
        "worker whose consumer has gone must not block on a bounded queue.",
        minimum=300,
    )


# --------------------------------------------------------------------- C11

WRITERS = {
    "append", "extend", "insert", "clear", "pop", "remove", "reverse", "sort", "add", "discard", "update", "setdefault",
    "popitem", "appendleft", "popleft", "extendleft", "difference_update", "intersection_update", "symmetric_difference_update",
    "__setitem__", "__delitem__",
}
CONTAINERS = (ListV, SetV, DictV)


class Watched(Engine):
    """Logs the accesses to variables, attributes and containers."""

    def access(self, how, loc, name):
        if self.log is not None:
            self.log(how, loc, name)

    def bind(self, env, name, v):
        e = self.holder(env, name)
        if e.kind in ("function", "module"):
            self.access("write", (id(e), name), name)
        return super().bind(env, name, v)

    def lookup(self, env, name):
        if self.log is not None:
            e = env
            while e is not None:
                if e.kind in ("function", "module") and (name in e.vars):
                    if e.kind == "module" or name in e.scope.locals:
                        self.access("read", (id(e), name), name)
                        break
                e = e.parent
        return super().lookup(env, name)

    def inst_getattr(self, o, name):
        c = o.cls.lookup(name)
        if isinstance(c, PropV) and c.cached and name not in o.attrs:
            self.access("write", (id(o), name), name)
        elif name in o.attrs:
            self.access("read", (id(o), name), name)
        return super().inst_getattr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, InstV):
            self.access("write", (id(o), name), name)
        return super().setattr(o, name, v)

    def cont(self, how, o):
        if self.log is not None and isinstance(o, CONTAINERS):
            self.access(how, (id(o), None), short(o, 40))

    def getitem(self, o, i):
        self.cont("read", o)
        return super().getitem(o, i)

    def setitem(self, o, i, v):
        self.cont("write", o)
        return super().setitem(o, i, v)

    def delitem(self, o, i):
        self.cont("write", o)
        return super().delitem(o, i)

    def contains(self, c, x):
        self.cont("read", c)
        return super().contains(c, x)

    def truth(self, v):
        self.cont("read", v)
        return super().truth(v)

    def _iterate(self, v, cb):
        self.cont("read", v)
        return super()._iterate(v, cb)

    def call(self, f, args, kw):
        if isinstance(f, MethV):
            self.cont("write" if f.name in WRITERS else "read", f.obj)
        return super().call(f, args, kw)


def reach(roots):
    """Identities of the environments, objects and containers reachable from the roots, with a description."""
    out = {}
    todo = [(r, "") for r in roots]
    while todo:
        x, path = todo.pop()
        if isinstance(x, (list, tuple)):
            todo += [(y, path) for y in x]
            continue
        if isinstance(x, AbsVal) or isinstance(x, Env):
            if id(x) in out:
                continue
            out[id(x)] = (x, path)
        if isinstance(x, Env):
            todo += [(v, f"{n}" if not path else f"{path}.{n}") for n, v in x.vars.items()]
            if x.parent is not None:
                todo.append((x.parent, "" if x.parent.kind == "module" else path))
        elif isinstance(x, FuncV):
            todo.append((x.env, path))
        elif isinstance(x, BoundV):
            todo += [(x.obj, path), (x.func, path)]
        elif isinstance(x, MethV):
            todo.append((x.obj, path))
        elif isinstance(x, InstV):
            todo += [(v, f"{path}.{n}") for n, v in x.attrs.items()]
            todo.append((x.cls, path))
        elif isinstance(x, ListV):
            todo += [(v, path) for v in x.items]
        elif isinstance(x, SetV):
            todo += [(v, path) for v in x.items.values()]
        elif isinstance(x, DictV):
            todo += [(v, path) for _, v in x.items.values()]
        elif isinstance(x, GenV):
            todo += [(x.env, path)]
    return out


class Sharing:
    """What worker and consumer access of the state that exists when the worker starts."""

    def __init__(self, eng, wb):
        self.eng, self.wb = eng, wb
        self.phase = "before"
        self.shared = {}
        self.public = {}
        self.acc = {"worker": {}, "consumer": {}}

    def start(self, thread):
        self.shared = reach([thread.target, thread.args, list(thread.kw.values())])
        self.public = reach([self.wb])
        self.phase = "worker"

    def __call__(self, how, loc, name):
        if how == "start":
            self.start(world(self.eng).threads[-1])
            return
        if how == "started":
            self.phase = "consumer"
            return
        if how == "drained":
            self.phase = "after"
            return
        if self.phase not in ("worker", "consumer") or loc[0] not in self.shared:
            return
        self.acc[self.phase].setdefault((loc, how), (name, self.eng.loc))

    def describe(self, loc, name):
        x, path = self.shared[loc[0]]
        if loc[1] is None:
            return f"the container {path or name}"
        if isinstance(x, Env):
            return f"the variable {loc[1]}" + (f" of module {x.module.name}" if x.kind == "module" else "")
        return f"the attribute {loc[1]}"

    def judge(self):
        w, c = self.acc["worker"], self.acc["consumer"]
        for (loc, how), (name, at) in w.items():
            if how == "write":
                x = self.shared[loc[0]][0]
                if loc[0] in self.public and not (isinstance(x, Env) and x.kind == "function"):
                    raise Violation(f"{self.describe(loc, name)} of the workbook or module is written by the background parse", at)
                for h in ("read", "write"):
                    if (loc, h) in c:
                        raise Violation(f"{self.describe(loc, name)} is written by the background parse and {h[:4].replace('writ', 'writt')}{'en' if h == 'write' else ''} by its consumer before the end marker", c[(loc, h)][1])
            elif (loc, "write") in c:
                raise Violation(f"{self.describe(loc, name)} is read by the background parse and written by its consumer while it runs", c[(loc, "write")][1])
        return len(w) + len(c)


def world(eng):
    return eng.path.data["world"]


def build_watched(repo):
    from sa.models import install

    eng = Watched(repo, unavailable=PLAIN)
    eng.tbb = True
    eng.load_all()
    eng.snapshot()
    install(eng)
    eng.step_limit = 60_000
    return eng


def c11_failing(case, rep):
    """The same when the parse fails: what tells the consumer is not consulted before the end marker."""

    def run(eng):
        eng.log = None
        state = {}

        def made(w, wb):
            state["sh"] = eng.log = Sharing(eng, wb)

        try:
            out = case.run(eng, made=made)
        except Deadlock:
            raise Undecided("the consumer waits forever (C10)") from None
        finally:
            eng.log = None
        rep.ok("shared-location", state["sh"].judge())

    return run


def c11_run(case, rep, touch=None):
    def run(eng):
        eng.log = None
        evs, done = sheet(case.rows)
        kw = {}
        if case.skip:
            kw["skip_rows"] = case.skip
        if case.take:
            kw["take_rows"] = case.take
        if case.fault:
            kw["row_callback"] = Builtin("callback", lambda e, a, k: None)
        items = el("sst", el("si", t_el("a")), el("si", t_el("#N/A")))
        # cells of every kind, so that everything the parse consults is consulted
        row = [x for i, (t, v, s) in enumerate((("s", "0", None), ("s", "1", None), ("str", "x", None), (None, "1", "1"), (None, "2", "4"), ("inlineStr", "z", None))) for x in el("c", el("v", text(v)), **{"r": "ABCDEF"[i] + "9", **({"t": t} if t else {}), **({"s": s} if s else {})})]
        w, wb = make(eng, XLSX, sheet_events([row] * case.rows), shared=items, styles=STYLES, null_values=ListV(["-"]))
        if touch:
            eng.getattr(wb, touch)
        sh = Sharing(eng, wb)
        eng.log = sh
        try:
            got = cells(eng, wb, skip_cols=ListV([7]), **kw)
        except PyExc:
            pass
        finally:
            eng.log = None
        if not w.threads:
            raise Undecided("no background parse")
        n = sh.judge()
        rep.ok("shared-location", n)
        if n < 1:
            raise Undecided("nothing is shared")

    return run


def two_iterators(eng):
    """Two iterations over one workbook, interleaved."""
    evs, done = sheet(3)
    w, wb = make(eng, XLSX, evs, shared=[], styles=STYLES)
    it = lambda: eng.lazy(eng.call(eng.getattr(wb, "iter_worksheet"), [0], {}))  # noqa: E731
    a = it()
    read = lambda g: tuple(eng.getattr(g[0], n) for n in ("row", "col", "xdt", "val"))  # noqa: E731
    got = [read(a.next())]
    b = it()
    got_b = []
    while (x := b.next()) is not None:
        got_b.append(read(x))
    while (x := a.next()) is not None:
        got.append(read(x))
    want = [(d[0], d[1], None, f"v{d[0]}{d[1]}".encode()) for d in done]
    expect_cells(eng, "second of two interleaved iterations", got_b, want)
    expect_cells(eng, "first of two interleaved iterations", got, want)


def c11(pid, tier, repo):
    rep = Report(pid, tier, repo)
    eng = build_watched(repo)
    for case in ENDS:
        if case.rows:
            for touch in (None, "shared", "styles", "sheets"):
                explore(eng, rep, c11_run(case, rep, touch), "no-sharing", f"{case.name}, {touch} read before")
    for case in FAULTS:
        explore(eng, rep, c11_failing(case, rep), "no-sharing", case.name)
    explore(eng, rep, two_iterators, "independent-iterations", "two interleaved iterations")
    return rep.finish(
        "iter_worksheet of the XLSX reader is interpreted with every access to variables, attributes and containers logged; "
        "of the state reachable from the worker when it starts, whatever the worker writes must belong neither to the "
        "workbook nor to a module and must not be touched by the consumer before the end marker, and whatever the worker "
        "reads must not be written by the consumer meanwhile (queues are the only exception).",
        minimum=100,
    )

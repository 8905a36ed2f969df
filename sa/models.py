"""Models of the archive, the XML parser, threads, queues and the Arrow builders the readers use."""
from __future__ import annotations

from .bits import MemV, to_bytestr
from .engine import ExtV, PyExc, StopConsume, Undecided, Violation
from .values import *  # noqa: F403
from .values import AbsVal, Builtin, DictV, ExcV, GenV, InstV, ListV, Term


class World:
    """What the archive holds and what happened to it on this path."""

    def __init__(self, eng, parts=(), names=None):
        self.eng = eng
        self.parts = dict(parts)  # name -> list of records / XML events, or a callable producing them
        self.names = list(self.parts) if names is None else names
        self.events = []  # ("open"|"close", object)
        self.archives = []
        self.opened = []
        self.in_worker = 0
        self.threads = []
        self.lost = []  # exceptions that ended a thread
        self.queues = []
        self.deadlocks = 0
        self.parse_end = None  # exception raised at the end of parsing of a worksheet (fault)
        self.worker_phase = None
        eng.path.data["world"] = self

    def fail_open(self, eng, name):
        """Fault of the archive itself when opening (set by checks)."""

    def still_open(self):
        return [x for x in [*self.archives, *self.opened] if not x.closed]


def world(eng):
    w = eng.path.data.get("world")
    if w is None:
        raise Undecided("no archive")
    return w


class Name(str):
    """Name of an opened part, with the archive's contents it belongs to."""

    world = None


def home(eng, name):
    return getattr(name, "world", None) or world(eng)


class Entry(AbsVal):
    kind = "zipinfo"

    def __init__(self, name):
        self.name = name

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        if name == "filename":
            return self.name
        if name == "is_dir":
            return Builtin(name, lambda e, a, k: self.name.endswith("/"))
        raise Undecided(f"ZipInfo.{name}")

    def __repr__(self):
        return f"<entry {self.name}>"


class ZipV(AbsVal):
    kind = "zip"

    def __init__(self, eng, file, mode="r"):
        self.file, self.closed, self.mode = file, False, mode
        self.where = eng.loc
        self.w = w = world(eng)
        if getattr(file, "closed", False):
            eng.throw(ValueError, "I/O operation on closed file.")
        w.fail_open(eng, None)
        w.archives.append(self)
        w.events.append(("open", self))

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        f = getattr(self, "m_" + name.strip("_"), None)
        if f is not None:
            return Builtin(name, f)
        if name == "filename":
            return self.file
        if name == "fp":
            return None if self.closed else self.file
        if name == "NameToInfo":
            return DictV([(n, Entry(n)) for n in self.w.names])
        raise Undecided(f"ZipFile.{name}")

    def m_enter(self, eng, a, k):
        return self

    def m_exit(self, eng, a, k):
        self.m_close(eng, a, k)

    def m_close(self, eng, a, k):
        if not self.closed:
            self.closed = True
            self.w.events.append(("close", self))

    def m_namelist(self, eng, a, k):
        return ListV(self.w.names)

    def m_infolist(self, eng, a, k):
        return ListV([Entry(n) for n in self.w.names])

    def check(self, eng):
        if self.closed:
            eng.throw(ValueError, "Attempt to use ZIP archive that was already closed")

    def m_getinfo(self, eng, a, k):
        return Entry(self.has(eng, a[0]))

    def has(self, eng, name):
        for n in self.w.names:
            if eng.truth(eng.compare("Eq", name, n)):
                return n
        eng.throw(KeyError, name)

    def m_open(self, eng, a, k):
        self.check(eng)
        name = a[0]
        if isinstance(name, Entry):
            name = name.name
        n = self.has(eng, name)
        self.w.fail_open(eng, n)
        n = Name(n)
        n.world = self.w
        return PartV(eng, n, self)

    def m_read(self, eng, a, k):
        p = self.m_open(eng, a, k)
        p.closed = True
        return DataV(p.name)

    def __repr__(self):
        return f"<archive {self.file!r}>"


class DataV(AbsVal):
    """All the bytes of a part."""

    kind = "bytes"

    def __init__(self, name, pieces=None):
        self.name, self.pieces = name, pieces
        self.n = pieces.n if pieces is not None else 0

    def v_truth(self, eng):
        return True


class Pieces:
    """A part that is read in pieces: there are two, cut somewhere in the middle."""

    def __init__(self, eng, name):
        src = home(eng, name).parts[name]
        if not hasattr(src, "__iter__"):
            raise Undecided("partial read of a part")
        self.name, self.src = name, iter(src)
        self.half = max(1, len(getattr(src, "evs", src)) // 2) if hasattr(src, "__len__") or hasattr(src, "evs") else 4
        self.n = 0

    def take(self):
        self.n += 1
        return DataV(self.name, self) if self.n <= 2 else b""

    def events(self, n):
        if n == 1:
            for _ in range(self.half):
                try:
                    yield next(self.src)
                except StopIteration:
                    return
        else:
            yield from self.src


class PartV(AbsVal):
    kind = "stream"

    def __init__(self, eng, name, zf=None):
        self.name, self.closed, self.pos, self.zf = name, False, 0, zf
        self.where = eng.loc
        w = home(eng, name)
        w.opened.append(self)
        w.events.append(("open", self))

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        f = getattr(self, "m_" + name.strip("_"), None)
        if f is not None:
            return Builtin(name, f)
        if name == "name":
            return self.name
        if name == "closed":
            return self.closed
        raise Undecided(f"stream.{name}")

    def m_enter(self, eng, a, k):
        return self

    def m_exit(self, eng, a, k):
        self.m_close(eng, a, k)

    def m_close(self, eng, a, k):
        if not self.closed:
            self.closed = True
            home(eng, self.name).events.append(("close", self))

    def m_seek(self, eng, a, k):
        if a[0] == 0 and (len(a) == 1 or a[1] == 0):
            self.pos = 0
            return 0
        raise Undecided("seek in a part")

    def m_read(self, eng, a, k):
        if self.closed:
            eng.throw(ValueError, "I/O operation on closed file.")
        if a and a[0] not in (-1, None):
            n = a[0]
            if not isinstance(n, int) or n < 1024:
                raise Undecided("read of a few bytes of a part")
            if self.pos == 0:
                self.pos = Pieces(eng, self.name)
            if not isinstance(self.pos, Pieces):
                return b""
            return self.pos.take()
        if isinstance(self.pos, Pieces):
            raise Undecided("rest of a part that is partly read")
        if self.pos:
            return b""
        self.pos = 1
        return DataV(self.name)

    def m_read1(self, eng, a, k):
        return self.m_read(eng, a, k)

    def m_readable(self, eng, a, k):
        return True

    def m_seekable(self, eng, a, k):
        return True

    def __repr__(self):
        return f"<part {self.name}>"


class HeldV(PartV):
    """A part held in memory: closing it is not required."""

    def __init__(self, name):
        self.name, self.closed, self.pos, self.zf = name, False, 0, None
        self.where = None

    def m_close(self, eng, a, k):
        self.closed = True


class StreamV(AbsVal):
    """A binary stream: the caller's own, or one the program opened on a path."""

    kind = "stream"

    def __init__(self, eng, name, own=False):
        self.name, self.closed = name, False
        self.where = eng.loc
        if own:
            w = world(eng)
            w.opened.append(self)
            w.events.append(("open", self))

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        f = getattr(self, "m_" + name.strip("_"), None)
        if f is not None:
            return Builtin(name, f)
        if name == "closed":
            return self.closed
        if name in ("name", "mode"):
            return self.name if name == "name" else "rb"
        raise Undecided(f"stream.{name}")

    def v_isinstance(self, eng, cls):
        if cls in (str, bytes, int, dict, list):
            return False
        raise Undecided(f"isinstance of a stream and {short(cls)}")

    def m_enter(self, eng, a, k):
        return self

    def m_exit(self, eng, a, k):
        self.m_close(eng, a, k)

    def m_close(self, eng, a, k):
        if not self.closed:
            self.closed = True
            self.where = eng.loc

    def m_seek(self, eng, a, k):
        return 0

    def m_tell(self, eng, a, k):
        return 0

    def m_seekable(self, eng, a, k):
        return True

    m_readable = m_seekable

    def m_read(self, eng, a, k):
        return sym("file content", "bytes")

    def m_flush(self, eng, a, k):
        return None

    def __repr__(self):
        return f"<stream {self.name}>"


def records_of(eng, part):
    """Feed the records of a part to a callback."""
    src = home(eng, part).parts[part]

    def run(cb):
        if callable(src):
            src(eng, cb)
        else:
            for x in src:
                cb(x)

    return run


def scan_biff_hook(eng, args, kw):
    """`scan_biff` yields the wanted records of a part, in order, from the current position on."""
    io = args[0]
    only = args[1] if len(args) > 1 else kw.get("only")
    if isinstance(io, DataV):
        raise Undecided("scan of bytes")
    if not isinstance(io, PartV):
        raise Undecided(f"scan of {short(io)}")
    rec = eng.anchor("rxls.biff", "record")

    def run(cb):
        if io.closed:
            eng.throw(ValueError, "I/O operation on closed file.")
        if io.pos:
            return
        io.pos = 1

        def one(r):
            rid, data = r
            if only is not None and eng.truth(only) and not eng.truth(eng.contains(only, rid)):
                return
            world(eng).events.append(("record", rid))
            cb(eng.call(rec, [rid, data], {}))

        records_of(eng, io.name)(one)

    return GenV(None, None, run)


class ParserV(AbsVal):
    """An expat parser: attributes are set by the program, parsing drives the handlers."""

    kind = "parser"

    def __init__(self):
        self.attrs = {}
        self.over = self.fed = False
        self.cut = None

    def v_getattr(self, eng, name):
        if name == "ParseFile":
            return Builtin(name, self._parse_file)
        if name == "Parse":
            return Builtin(name, self._parse)
        if name in self.attrs:
            return self.attrs[name]
        if name in ("buffer_text", "ordered_attributes", "specified_attributes"):
            return False
        if name.endswith("Handler"):
            return None
        if name in ("CurrentLineNumber", "CurrentColumnNumber", "CurrentByteIndex", "ErrorCode", "ErrorLineNumber"):
            return Term("parser", (name,), "int")
        raise Undecided(f"parser.{name}")

    def v_setattr(self, eng, name, v):
        self.attrs[name] = v

    def v_truth(self, eng):
        return True

    def _parse_file(self, eng, a, k):
        io = a[0]
        if not isinstance(io, PartV):
            raise Undecided(f"parse of {short(io)}")
        if io.closed:
            eng.throw(ValueError, "I/O operation on closed file.")
        if io.pos:
            eng.throw(ExtV("pyexpat.ExpatError"), "no element found")
        io.pos = 1
        return self.drive(eng, io.name)

    def _parse(self, eng, a, k):
        final = a[1] if len(a) > 1 else k.get("isfinal", False)
        final = eng.truth(final)
        if self.over:
            eng.throw(ExtV("pyexpat.ExpatError"), "parsing finished")
        if isinstance(a[0], DataV):
            d = a[0]
            if d.pieces is None:
                self.drive(eng, d.name, final=False)
            else:
                self.drive(eng, d.name, d.pieces.events(d.n), False)
        elif a[0] != b"":
            raise Undecided("incremental parsing")
        if final:
            self.over = True
            if self.cut is not None:
                raise PyExc(self.cut)
            if not self.fed:
                eng.throw(ExtV("pyexpat.ExpatError"), "no element found")
        return 1

    def drive(self, eng, part, events=None, final=True):
        self.fed = True
        h = self.attrs

        def call(name, *args):
            f = h.get(name)
            if f is not None:
                eng.call(f, list(args), {})

        def one(ev):
            what = ev[0]
            if what == "start":
                if h.get("ordered_attributes"):
                    at = ListV([y for x in ev[2].items() for y in x])
                else:
                    at = DictV(list(ev[2].items()))
                call("StartElementHandler", ev[1], at)
            elif what == "end":
                call("EndElementHandler", ev[1])
            elif what == "text":
                call("CharacterDataHandler", ev[1])
            elif what == "fault":
                raise PyExc(ev[1])
            elif what == "cut":
                # the document ends before it is complete
                if final:
                    raise PyExc(ev[1])
                self.cut = ev[1]

        if events is None:
            records_of(eng, part)(one)
        else:
            for ev in events:
                one(ev)
        if final:
            self.over = True
        return 1


class QueueV(AbsVal):
    kind = "queue"

    def __init__(self, eng, maxsize=0):
        self.items = []
        self.maxsize = maxsize
        self.log = []  # everything ever put
        self.where = eng.loc
        world(eng).queues.append(self)

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        f = getattr(self, "m_" + name, None)
        if f is None:
            raise Undecided(f"queue.{name}")
        return Builtin(name, f)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def m_put(self, eng, a, k):
        w = world(eng)
        if isinstance(self.maxsize, int) and self.maxsize > 0:
            block = a[1] if len(a) > 1 else k.get("block", True)
            timeout = a[2] if len(a) > 2 else k.get("timeout")
            if block is True and timeout is None:
                w.blocking_put = eng.loc
        self.items.append(a[0])
        self.log.append((a[0], w.in_worker, eng.loc))

    def m_put_nowait(self, eng, a, k):
        self.items.append(a[0])
        self.log.append((a[0], world(eng).in_worker, eng.loc))

    def m_get(self, eng, a, k):
        w = world(eng)
        if self.items:
            x = self.items.pop(0)
            if not self.items and eng.log is not None:
                eng.log("drained", None, None)
            return x
        block = a[0] if a else k.get("block", True)
        timeout = a[1] if len(a) > 1 else k.get("timeout")
        if block is not True or timeout is not None:
            eng.throw(ExtV("queue.Empty"))
        w.deadlocks += 1
        raise Deadlock("the consumer waits for an item nobody puts into the queue", eng.loc)

    def m_get_nowait(self, eng, a, k):
        if self.items:
            return self.items.pop(0)
        eng.throw(ExtV("queue.Empty"))

    def m_empty(self, eng, a, k):
        return not self.items

    def m_qsize(self, eng, a, k):
        return len(self.items)

    def m_task_done(self, eng, a, k):
        return None


class Deadlock(Violation):
    pass


class ThreadV(AbsVal):
    kind = "thread"

    def __init__(self, eng, args, kw):
        self.target = kw.get("target", args[1] if len(args) > 1 else None)
        self.args = eng.to_list(kw.get("args", args[3] if len(args) > 3 else ()))
        kws = kw.get("kwargs")
        self.kw = {k: v for k, v in kws.items.values()} if isinstance(kws, DictV) else {}
        self.attrs = {"daemon": kw.get("daemon", False), "name": kw.get("name", "Thread")}

    def v_getattr(self, eng, name):
        f = getattr(self, "m_" + name, None)
        if f is not None:
            return Builtin(name, f)
        if name in self.attrs:
            return self.attrs[name]
        raise Undecided(f"thread.{name}")

    def v_setattr(self, eng, name, v):
        self.attrs[name] = v

    def v_truth(self, eng):
        return True

    def m_start(self, eng, a, k):
        """The thread runs here in full; the checks compare accesses to tell whether this is the only order."""
        w = world(eng)
        w.threads.append(self)
        w.in_worker += 1
        stack = eng.callstack
        if eng.log is not None:
            eng.log("start", None, None)
        try:
            eng.call(self.target, self.args, self.kw)
        except PyExc as e:
            w.lost.append(e.val)
        finally:
            w.in_worker -= 1
            eng.callstack = stack
            if eng.log is not None:
                eng.log("started", None, None)

    def m_join(self, eng, a, k):
        w = world(eng)
        if getattr(w, "blocking_put", None) and any(len(q.items) > q.maxsize > 0 for q in w.queues):
            raise Deadlock("the consumer waits for a worker that waits for room in the queue", eng.loc)

    def m_is_alive(self, eng, a, k):
        raise Undecided("is_alive")


# ------------------------------------------------------------------ Arrow arrays of known items


class ItemsV(AbsVal):
    """An Arrow array given by its items (None is null)."""

    kind = "array"

    def __init__(self, items, typ=None):
        self.items, self.typ = list(items), typ

    def v_getattr(self, eng, name):
        if name == "cast":
            return Builtin(name, lambda e, a, k: ItemsV(self.items, a[0] if a else k.get("target_type")))
        if name == "type":
            return self.typ
        if name == "null_count":
            return sum(x is None for x in self.items)
        if name == "to_pylist":
            return Builtin(name, lambda e, a, k: ListV(self.items))
        if name in ("combine_chunks",):
            return Builtin(name, lambda e, a, k: self)
        if name == "slice":
            return Builtin(name, lambda e, a, k: ItemsV(self.items[a[0] :][: a[1] if len(a) > 1 else None], self.typ))
        raise Undecided(f"array.{name}")

    def v_len(self, eng):
        return len(self.items)

    def v_iter(self, eng, cb):
        for x in self.items:
            cb(x)
        return None

    def v_getitem(self, eng, i):
        if isinstance(i, (int, slice)):
            r = self.items[i]
            return ItemsV(r, self.typ) if isinstance(i, slice) else r
        raise Undecided("array index")

    def v_truth(self, eng):
        return bool(self.items)

    def __repr__(self):
        return f"<array {self.items!r}: {self.typ!r}>"


class BuilderV(AbsVal):
    """pyarrow.lib.StringBuilder"""

    kind = "builder"

    def __init__(self):
        self.items = []

    def v_getattr(self, eng, name):
        if name == "append":
            return Builtin(name, self._append)
        if name == "append_values":
            return Builtin(name, lambda e, a, k: [self._append(e, [x], {}) for x in e.to_list(a[0])] and None)
        if name == "finish":
            return Builtin(name, lambda e, a, k: self.array(e))
        if name == "null_count":
            return sum(x is None for x in self.items)
        raise Undecided(f"builder.{name}")

    def array(self, eng):
        if getattr(eng, "numbers", False):
            from .arrays import PaArr, PaT

            return PaArr(PaT("string"), self.items)
        return ItemsV(self.items, "string")

    def _append(self, eng, a, k):
        x = a[0]
        if not (x is None or eng.kindof(x) in ("str", "bytes")):
            eng.throw(TypeError, "append")
        self.items.append(x)

    def v_len(self, eng):
        return len(self.items)

    def v_truth(self, eng):
        return bool(self.items)


def pa_array(eng, args, kw):
    items = eng.to_list(args[0])
    for x in items:
        if x is not None and eng.kindof(x) not in ("str", "obj", "bytes"):
            raise Undecided("array of other than texts")
    typ = args[1] if len(args) > 1 else kw.get("type")
    return ItemsV(items, typ if typ is not None else "string")


def pa_nulls(eng, args, kw):
    n = args[0] if args else kw.get("size")
    if not isinstance(n, int):
        raise Undecided("nulls of unknown number")
    return ItemsV([None] * n, args[1] if len(args) > 1 else kw.get("type"))


def bytesio(eng, a, k):
    init = a[0] if a else k.get("initial_bytes", b"")
    if isinstance(init, DataV) and init.pieces is None:
        return HeldV(init.name)
    b = to_bytestr(eng, init)
    if b is None:
        raise Undecided(f"stream over {short(init)}")
    return MemV(eng, b)


class TextV(AbsVal):
    """io.StringIO"""

    kind = "stream"

    def __init__(self, eng, init=""):
        self.val = init
        self.pos = 0 if init else None  # None: at the end

    def v_truth(self, eng):
        return True

    def v_getattr(self, eng, name):
        f = getattr(self, "m_" + name.strip("_"), None)
        if f is None:
            raise Undecided(f"StringIO.{name}")
        return Builtin(name, f)

    def m_write(self, eng, a, k):
        if self.pos is not None:
            if self.val != "":
                raise Undecided("overwriting of a text stream")
            self.pos = None
        self.val = eng.cat([self.val, a[0]], "str")

    def m_getvalue(self, eng, a, k):
        return self.val

    def m_seek(self, eng, a, k):
        self.pos = 0 if a[0] == 0 and len(a) == 1 else None
        return 0

    def m_truncate(self, eng, a, k):
        if (a and a[0] == 0) or self.pos == 0:
            self.val = ""
            self.pos = None
            return 0
        raise Undecided("truncate")

    def m_read(self, eng, a, k):
        if self.pos == 0 and not a:
            self.pos = None
            return self.val
        return ""

    def m_close(self, eng, a, k):
        return None

    def m_enter(self, eng, a, k):
        return self

    def m_exit(self, eng, a, k):
        return None


def unknown_stream(x):
    raise Undecided(f"buffered reader of {short(x)}")


def install(eng):
    """Readers see these models of the libraries."""
    c = eng.lib.calls
    c["io.BytesIO"] = bytesio
    c["io.BufferedReader"] = lambda e, a, k: a[0] if isinstance(a[0], PartV) else unknown_stream(a[0])
    c["io.StringIO"] = lambda e, a, k: TextV(e, a[0] if a else "")
    c["builtins.open"] = lambda e, a, k: StreamV(e, a[0], own=True)
    c["io.open"] = c["builtins.open"]
    c["zipfile.ZipFile"] = lambda e, a, k: ZipV(e, *a[:2])
    c["pyexpat.ParserCreate"] = lambda e, a, k: ParserV()
    c["xml.parsers.expat.ParserCreate"] = c["pyexpat.ParserCreate"]
    c["threading.Thread"] = lambda e, a, k: ThreadV(e, a, k)
    c["queue.SimpleQueue"] = lambda e, a, k: QueueV(e)
    c["queue.Queue"] = lambda e, a, k: QueueV(e, a[0] if a else k.get("maxsize", 0))
    c["pyarrow.array"] = pa_array
    c["pyarrow.nulls"] = pa_nulls
    c["pyarrow.lib.StringBuilder"] = lambda e, a, k: BuilderV()
    c["pyarrow.StringBuilder"] = c["pyarrow.lib.StringBuilder"]
    c["pyarrow.large_string"] = lambda e, a, k: "large_string"
    c["pyarrow.large_utf8"] = c["pyarrow.large_string"]
    c["pyarrow.string"] = lambda e, a, k: "string"
    c["pyarrow.utf8"] = c["pyarrow.string"]
    eng.hooks["rxls.biff.scan_biff"] = scan_biff_hook

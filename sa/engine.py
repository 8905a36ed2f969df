"""Disjunctive abstract interpreter over the syntax trees of the analysed package.

One *path* is a run of the abstract semantics in which every undecided abstract condition was
resolved one way (`choose`); `explore` enumerates the alternatives by deterministic re-analysis.
No code of the analysed package is ever imported or executed.
"""
from __future__ import annotations

import ast
import builtins
import os
import re
import sys
import threading

from . import facts as F
from .values import *  # noqa: F403
from .values import _Missing

sys.setrecursionlimit(20000)


class Pruned(Exception):
    """The path is abandoned: infeasible, already visited or out of the bound."""


class Undecided(Exception):
    """The path cannot be interpreted precisely enough."""


class AnalysisBroken(Exception):
    """An anchor vanished: the check cannot answer."""


class Violation(Exception):
    def __init__(self, msg, loc=None):
        super().__init__(msg)
        self.msg, self.loc = msg, loc


class PyExc(Exception):
    """An exception of the interpreted program."""

    def __init__(self, val):
        super().__init__(repr(val))
        self.val = val


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class StopConsume(Exception):
    """Raised by a consumer callback to close an interpreted generator."""


# internal errors end the analysis instead of leaving their path undecided
STRICT = os.environ.get("RXLS_STRICT") == "1"


class LazyKill(BaseException):
    """Ends a suspended generator."""


class Lazy:
    """A generator advanced step by step: it runs in a thread of its own, one of the two at a time."""

    def __init__(self, eng, gen):
        self.eng, self.gen = eng, gen
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.item = self.exc = None
        self.done = self.killed = False
        self.thread = None

    def body(self):
        self.go.acquire()
        try:
            if self.killed:
                return
            if self.gen.run is not None:
                self.gen.run(self.cb)
            else:
                self.eng.run_gen(self.gen, self.cb)
        except (LazyKill, StopConsume):
            pass
        except BaseException as e:  # noqa: BLE001
            self.exc = e
        finally:
            self.done = True
            self.back.release()

    def cb(self, x):
        self.item = (x,)
        stack, loc = self.eng.callstack, self.eng.loc
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise StopConsume
        self.outer = self.eng.callstack, self.eng.loc
        self.eng.callstack, self.eng.loc = stack, loc

    def next(self):
        """The next item as a 1-tuple, or None at the end."""
        if self.done:
            return None
        if self.thread is None:
            t = threading.Thread(target=self.body, daemon=True)
            size = threading.stack_size(32 * 1024 * 1024)
            try:
                t.start()
            except RuntimeError:
                raise Undecided("too many suspended generators") from None
            finally:
                threading.stack_size(size)
            self.thread = t
        self.item = None
        stack, loc = self.eng.callstack, self.eng.loc
        self.go.release()
        self.back.acquire()
        self.eng.callstack, self.eng.loc = stack, loc
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e
        return self.item if not self.done else None

    def close(self):
        if self.thread is not None and not self.done:
            self.killed = True
            stack, loc = self.eng.callstack, self.eng.loc
            self.go.release()
            self.back.acquire()
            self.eng.callstack, self.eng.loc = stack, loc
            self.thread.join()
            if self.exc is not None:
                e, self.exc = self.exc, None
                raise e
        self.done = True


class Env:
    __slots__ = ("cls", "comp", "func", "gen_cb", "kind", "module", "parent", "scope", "vars")

    def __init__(self, kind, parent, module, scope=None):
        self.kind = kind  # 'module' | 'function' | 'class' | 'comp'
        self.parent, self.module, self.scope = parent, module, scope
        self.vars = {}
        self.gen_cb = None
        self.func = None
        self.cls = None


class Scope:
    """Names bound in a function body."""

    def __init__(self, node):
        self.locals, self.nonlocals, self.globals = set(), set(), set()
        self.is_gen = False
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]:
                self.locals.add(x.arg)
            if a.vararg:
                self.locals.add(a.vararg.arg)
            if a.kwarg:
                self.locals.add(a.kwarg.arg)
            body = node.body if isinstance(node.body, list) else [node.body]
        else:
            body = node.body
        for st in body:
            self.visit(st)
        self.locals -= self.nonlocals | self.globals

    def target(self, t):
        if isinstance(t, ast.Name):
            self.locals.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x)
        elif isinstance(t, ast.Starred):
            self.target(t.value)

    def visit(self, n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self.visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, ast.Global):
            self.globals.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            if not comp:
                self.is_gen = True
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                self.target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            self.target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            self.target(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    self.target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                self.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.locals.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.NamedExpr):
            self.locals.add(n.target.id)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                self.target(t)
        elif isinstance(n, ast.comprehension):
            self.visit(n.iter, comp)
            for i in n.ifs:
                self.visit(i, comp)
            return
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self.visit(c, comp)


EXT_EXC_BASE = {
    "pyarrow.ArrowInvalid": ValueError,
    "pyarrow.lib.ArrowInvalid": ValueError,
    "pyarrow.ArrowException": Exception,
    "pyarrow.ArrowNotImplementedError": NotImplementedError,
    "pyarrow.ArrowTypeError": TypeError,
    "pyarrow.ArrowKeyError": KeyError,
    "pyarrow.ArrowIndexError": IndexError,
    "pyarrow.lib.ArrowIndexError": IndexError,
    "struct.error": Exception,
    "pyexpat.ExpatError": Exception,
    "zipfile.BadZipFile": Exception,
}


def exc_is(cls, target):
    """Whether exception class ``cls`` is ``target`` or its subclass."""
    if isinstance(target, tuple):
        return any(exc_is(cls, t) for t in target)
    if cls is target:
        return True
    if isinstance(cls, ExtV):
        if isinstance(target, ExtV):
            if cls.name.replace(".lib.", ".") == target.name.replace(".lib.", "."):
                return True
            return target.name.endswith("ArrowException") and ".Arrow" in cls.name
        base = EXT_EXC_BASE.get(cls.name, Exception)
        return isinstance(target, type) and issubclass(base, target)
    if isinstance(cls, ClassV):
        return any(exc_is(b, target) for b in cls.bases)
    if isinstance(cls, type) and isinstance(target, type):
        return issubclass(cls, target)
    return False


# calls whose results nobody looks at
SILENT = ("logging.", "warnings.", "time.", "print", "sys.std", "gc.", "tracemalloc.")


class Path:
    def __init__(self, prefix):
        self.prefix = prefix
        self.choices = []
        self.lits = {}
        self.facts = []
        self.trace = []  # (loc, description)
        self.steps = 0
        self.cands = {}  # term -> set of constants it is one of
        self.excl = {}  # term -> set of constants it is known to differ from
        self.eqs = {}  # term -> constant it is known to equal
        self.data = {}  # free for checks


_NUMERAL = re.compile(r"-?\d+(\.\d*)?(e[-+]?\d+)?|-?inf|nan", re.IGNORECASE)
_MOMENT = re.compile(r"[-\d:. TZ+]+")


def cannot_be(x, y):
    """Whether the text of a number or an instant, or a text with such parts, is certainly not this text."""
    if x.op == "shown":
        v, ty = x.args
        if ty in ("double", "float") or ty.startswith(("int", "uint")):
            if not _NUMERAL.fullmatch(y):
                return True
            return isinstance(v, (int, float)) and v == v and float(y) != v
        if ty.startswith("timestamp"):
            return not _MOMENT.fullmatch(y)
        return False
    if x.op == "cat":
        pos = 0
        for part in x.args:
            if isinstance(part, str):
                pos = y.find(part, pos)
                if pos < 0:
                    return True
                pos += len(part)
    return False


def cannot_be_same(a, b):
    if "cat" in (a.op, b.op) and a.kind == b.kind == "str":
        x, y = ([*v.args] if v.op == "cat" else [v] for v in (a, b))
        for i in (0, -1):
            # what both begin (or end) with
            while x and y:
                p, q = x[i], y[i]
                if p is q or (isinstance(p, str) and p == q):
                    del x[i], y[i]
                    continue
                if isinstance(p, str) and isinstance(q, str):
                    n = min(len(p), len(q))
                    if (p[:n] != q[:n]) if i == 0 else (p[-n:] != q[-n:]):
                        return True
                    x[i], y[i] = (p[n:], q[n:]) if i == 0 else (p[: len(p) - n], q[: len(q) - n])
                    for z in (x, y):
                        if not z[i]:
                            del z[i]
                    continue
                break
        if not x or not y:
            if any(isinstance(p, str) for p in (*x, *y)):
                return True
        elif len(x) == len(y) > 1:
            # fields apart from each other by something no number or instant holds
            for p, q in zip(x, y):
                if isinstance(p, str) != isinstance(q, str):
                    return False
                if isinstance(p, str) and (p != q or not re.search(r"[^-+:. \da-z]", p, re.IGNORECASE)):
                    return False
                if isinstance(p, Term) and not (p.op == q.op == "shown"):
                    return False
            return any(isinstance(p, Term) and cannot_be_same(p, q) for p, q in zip(x, y))
        elif len(x) == len(y) == 1 and (len(a.args) > 1 or len(b.args) > 1):
            p, q = x[0], y[0]
            if isinstance(p, Term) and isinstance(q, Term):
                return p.kind == q.kind == "str" and (cannot_be_same(p, q) or cannot_be_same(q, p))
            for u, v in ((p, q), (q, p)):
                if isinstance(u, Term) and isinstance(v, str) and u.op == "shown":
                    return cannot_be(u, v)
    if a.op == "shown" and b.op == "shown":
        (v, s), (w, t) = a.args, b.args
        return s == t and all(isinstance(z, (int, float)) and z == z for z in (v, w)) and v != w
    if b.op == "shown" and b.args[1] in ("double", "float") and a.op == "cat":
        # a numeral has one point
        frac = lambda p: isinstance(p, Term) and p.op == "shown" and p.args[1] == "double" and isinstance(p.args[0], float) and p.args[0] % 1 != 0  # noqa: E731
        if sum(p.count(".") if isinstance(p, str) else frac(p) for p in a.args) > 1:
            return True
    return bool(certain(a) - possible(b)) if "cat" in (a.op, b.op) else False


_ALL = frozenset(map(chr, range(256)))
_SHOWN = frozenset("0123456789+-.: TZ" + "infae" + "INFAE")


def certain(x):
    """Characters a text certainly holds."""
    parts = x.args if x.op == "cat" else (x,)
    return {c for p in parts if isinstance(p, str) for c in p}


def possible(x):
    """Characters a text may hold (as far as they are below 256)."""
    out = set()
    for p in x.args if x.op == "cat" else (x,):
        if isinstance(p, str):
            out |= set(p)
        elif isinstance(p, Term) and p.op == "shown":
            out |= _SHOWN
        else:
            return _ALL
    return out


class Engine:
    def __init__(self, repo="/repo", pkg="rxls", unavailable=("numba", "polars"), hooks=None, lib=None):
        self.repo, self.pkg = repo, pkg
        self.unavailable = set(unavailable)
        self.hooks = dict(hooks or {})
        self.modules = {}
        self.trees = {}
        self.scopes = {}
        self.path = Path([])
        self.loading = 0
        self.loc = self.entry = ("?", 0, "?")
        self.unchecked = set()  # compiled functions, by qualified name
        self.watch_bounds = False  # whether an index out of bounds in one of them is an access of foreign memory
        self.persistent = []
        self.lazies = []
        self.log = None
        self.step_limit = 400_000
        self.functions_seen = set()
        self.call_sites = set()
        self.callstack = []
        self.on_unknown_call = None
        self.loop_hook = None
        self.visited = set()
        self.loop_bound = 2
        self.sources = {}
        from .lib import Lib

        self.lib = lib or Lib()
        self.files_read = set()

    # ------------------------------------------------------------ exploring

    def explore(self, run, max_paths=200000, stop_on_violation=0, time_limit=None):
        """Run ``run(eng)`` on every path. Returns a Result."""
        import time

        t0 = time.time()
        res = Result()
        stack = [[]]
        self.visited = set()
        while stack:
            prefix = stack.pop()
            self.path = Path(prefix)
            self.restore()
            self.alts = []
            self.callstack = []
            self.loc = ("?", 0, "?")
            res.paths += 1
            try:
                run(self)
                res.complete += 1
            except Pruned:
                res.pruned += 1
            except Undecided as e:
                res.undecided.append((str(e), self.loc, list(self.path.trace)))
            except Violation as e:
                loc = e.loc or self.loc
                if "opaque" in self.path.data:
                    res.undecided.append((f"{e.msg}, after {self.path.data['opaque']}, which has no model", loc, list(self.path.trace)))
                else:
                    res.violations.append(V(e.msg, self.entry if loc[0] == "?" else loc, list(self.path.trace)))
            except PyExc as e:
                if "opaque" in self.path.data:
                    res.undecided.append((f"{e.val!r}, after {self.path.data['opaque']}, which has no model", self.loc, list(self.path.trace)))
                else:
                    res.escaped.append((e.val, self.loc, list(self.path.trace)))
            except RecursionError:
                res.undecided.append(("recursion", self.loc, list(self.path.trace)))
            except (ReturnSig, BreakSig, ContinueSig, StopConsume) as e:
                res.undecided.append((f"signal {type(e).__name__}", self.loc, []))
            except (ArithmeticError, AssertionError, AttributeError, LookupError, NotImplementedError, TypeError, ValueError, re.error) as e:
                # something the models do not provide for
                if STRICT:
                    raise
                res.undecided.append((f"internal error {type(e).__name__}: {e}", self.loc, list(self.path.trace)))
            finally:
                res.steps += self.path.steps
                lazies, self.lazies = self.lazies, []
                for z in lazies:
                    try:
                        z.close()
                    except BaseException:  # noqa: BLE001, S110
                        pass
            for depth, n in self.alts:
                base = self.path.choices[:depth]
                for k in range(n - 1, 0, -1):
                    stack.append([*base, k])
            if stop_on_violation and len(res.violations) >= stop_on_violation:
                res.truncated = "stopped at violation"
                break
            if res.paths >= max_paths:
                if stack:
                    res.truncated = f"path limit {max_paths}"
                break
            if time_limit and time.time() - t0 > time_limit:
                if stack:
                    res.truncated = f"time limit {time_limit}s"
                break
        return res

    def opaque(self, name):
        """Something without a model takes part: what the path shows from here on is not believed."""
        if not self.loading and not name.startswith(SILENT):
            self.path.data.setdefault("opaque", name)

    def choose(self, n, what="", show=None):
        """Resolve an undecided condition: returns 0..n-1."""
        if n <= 1:
            return 0
        p = self.path
        i = len(p.choices)
        if i < len(p.prefix):
            k = p.prefix[i]
        else:
            k = 0
            self.alts.append((i, n))
        p.choices.append(k)
        if len(p.choices) > 4000:
            raise Undecided("too many choices")
        if what:
            p.trace.append((self.loc, f"{what} -> {show[k] if show else k}"))
        return k

    def note(self, what):
        self.path.trace.append((self.loc, what))

    def lit(self, term, show=None):
        """Decide a boolean abstract condition."""
        p = self.path
        v = p.lits.get(term)
        if v is None:
            v = self.choose(2, show or repr(term), ("true", "false")) == 0
            p.lits[term] = v
        return v

    def assume(self, aff):
        """Add the fact ``aff >= 0``."""
        if not aff.c:
            if aff.k < 0:
                raise Pruned
            return
        self.path.facts.append(aff)

    def bounds(self, aff):
        out = []
        for t in aff.c:
            self._term_bounds(t, out)
        return out

    def _term_bounds(self, t, out):
        if t.op in ("uint", "byte"):
            n = t.args[2] if t.op == "uint" else 1
            out.append(Aff({t: 1}, 0))
            out.append(Aff({t: -1}, 256**n - 1))
        elif t.op in ("len", "count", "abs", "sizeof", "mod"):
            out.append(Aff({t: 1}, 0))
        if t.op == "mod" and isinstance(t.args[1], int) and t.args[1] > 0:
            out.append(Aff({t: -1}, t.args[1] - 1))

    def possible(self, aff):
        """Whether ``aff >= 0`` is consistent with the path."""
        if not aff.c:
            return aff.k >= 0
        fs = self.path.facts
        extra = self.bounds(aff)
        rel = F.relevant(fs, aff)
        seen = set(aff.c)
        for f in rel:
            for t in f.c:
                if t not in seen:
                    seen.add(t)
                    self._term_bounds(t, extra)
        return F.feasible([*rel, *extra, aff])

    def decide_ge(self, aff, show=None):
        """Decide ``aff >= 0``."""
        if not aff.c:
            return aff.k >= 0
        b = self.bitsym(aff)
        if b is not None:
            s, v = b
            return s.decide_ge(-(aff.k // v)) if v > 0 else not s.decide_ge(aff.k // -v + 1)
        neg = Aff({t: -v for t, v in aff.c.items()}, -aff.k - 1)
        t = self.possible(aff)
        f = self.possible(neg)
        if t and f:
            if self.choose(2, show or f"{aff!r} >= 0", ("true", "false")) == 0:
                self.assume(aff)
                return True
            self.assume(neg)
            return False
        if not t and not f:
            raise Pruned
        return t

    def must_ge(self, aff):
        neg = Aff({t: -v for t, v in aff.c.items()}, -aff.k - 1)
        return not self.possible(neg)

    def bitsym(self, aff):
        """The bit-level symbol and its factor, if the expression is made of one such symbol only."""
        if len(aff.c) != 1:
            return None
        (t, v), = aff.c.items()
        s = self.path.data.get("bitsyms", {}).get(t)
        return None if s is None or not isinstance(v, int) or not isinstance(aff.k, int) else (s, v)

    def decide_eq(self, aff, show=None):
        if not aff.c:
            return aff.k == 0
        b = self.bitsym(aff)
        if b is not None:
            s, v = b
            if -aff.k % v:
                return False
            c = -aff.k // v
            if not self._possible2(Aff({s.term: 1}, -c), Aff({s.term: -1}, c)):
                return False
            return s.decide_eq(c)
        lt = Aff({t: -v for t, v in aff.c.items()}, -aff.k - 1)  # aff <= -1
        gt = Aff(dict(aff.c), aff.k - 1)  # aff >= 1
        opts = []
        ge = aff
        le = Aff({t: -v for t, v in aff.c.items()}, -aff.k)
        # equality possible?
        if self._possible2(ge, le):
            opts.append("==")
        if self.possible(lt):
            opts.append("<")
        if self.possible(gt):
            opts.append(">")
        if not opts:
            raise Pruned
        k = opts[self.choose(len(opts), show or f"{aff!r} <=> 0", opts)] if len(opts) > 1 else opts[0]
        if len(opts) > 1:
            if k == "==":
                self.assume(ge)
                self.assume(le)
            elif k == "<":
                self.assume(lt)
            else:
                self.assume(gt)
        return k == "=="

    def _possible2(self, a, b):
        extra = self.bounds(a)
        rel = F.relevant(self.path.facts, a)
        seen = set(a.c)
        for f in rel:
            for t in f.c:
                if t not in seen:
                    seen.add(t)
                    self._term_bounds(t, extra)
        return F.feasible([*rel, *extra, a, b])

    def must_eq(self, x, y):
        """Whether the two integer values are equal on every concretisation of the path."""
        a = aff_add(to_aff(x), to_aff(y), -1)
        if not a.c:
            return a.k == 0
        lt = Aff({t: -v for t, v in a.c.items()}, -a.k - 1)
        gt = Aff(dict(a.c), a.k - 1)
        return not self.possible(lt) and not self.possible(gt)

    # ------------------------------------------------------------ modules

    def persist(self, obj):
        if self.loading:
            self.persistent.append(obj)
        return obj

    def snapshot(self):
        self._snap = []
        seen = set()
        for o in self.persistent:
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, ListV):
                self._snap.append((o, list(o.items)))
            elif isinstance(o, (SetV, DictV)):
                self._snap.append((o, dict(o.items)))
            elif isinstance(o, (InstV, ClassV)):
                self._snap.append((o, dict(o.attrs)))
            elif isinstance(o, Env):
                self._snap.append((o, dict(o.vars)))
        self._nsnap = len(self.persistent)

    def restore(self):
        if getattr(self, "_nsnap", -1) != len(self.persistent):
            self.snapshot()
            return
        for o, c in self._snap:
            if isinstance(o, ListV):
                if o.items != c:
                    o.items = list(c)
            elif isinstance(o, (SetV, DictV)):
                if len(o.items) != len(c) or (len(c) < 50 and o.items != c):
                    o.items = dict(c)
            elif isinstance(o, Env):
                if o.vars != c:
                    o.vars = dict(c)
            else:
                o.attrs = dict(c)

    def module_file(self, name):
        rel = name.replace(".", "/")
        for cand in (f"{rel}/__init__.py", f"{rel}.py"):
            f = os.path.join(self.repo, cand)
            if os.path.isfile(f):
                return f
        return None

    def tree(self, file):
        if file not in self.trees:
            with open(file, encoding="utf-8") as io:
                src = io.read()
            self.sources[file] = src
            try:
                self.trees[file] = ast.parse(src, file)
            except SyntaxError as e:
                raise AnalysisBroken(f"cannot parse {file}: {e}") from None
            self.files_read.add(os.path.relpath(file, self.repo))
        return self.trees[file]

    def load(self, name):
        """Abstractly execute a module of the analysed package."""
        if name in self.modules:
            return self.modules[name]
        file = self.module_file(name)
        if file is None:
            return None
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        if name in self.modules:
            return self.modules[name]
        m = ModV()
        m.name, m.file = name, file
        m.env = Env("module", None, m)
        m.env.vars["__name__"] = name
        m.env.vars["__file__"] = file
        self.modules[name] = m
        saved = self.loc, self.callstack
        self.loading += 1
        self.callstack = []
        self.persist(m.env)
        path, self.path = self.path, Path([])
        self.alts = getattr(self, "alts", [])
        alts, self.alts = self.alts, []
        try:
            self.block(self.tree(file).body, m.env)
        except PyExc as e:
            raise AnalysisBroken(f"module {name} cannot be loaded: {e.val!r} at {self.loc}") from None
        finally:
            self.loading -= 1
            self.path = path
            self.alts = alts
            self.loc, self.callstack = saved
        if parent and parent in self.modules:
            self.modules[parent].env.vars.setdefault(name.rpartition(".")[2], m)
        return m

    def anchor(self, module, name):
        """A public construct the check starts from."""
        m = self.load(module)
        if m is None:
            raise AnalysisBroken(f"module {module} is missing")
        obj = m
        for part in name.split("."):
            try:
                obj = self.getattr(obj, part)
            except PyExc:
                raise AnalysisBroken(f"{module}.{name} is missing") from None
        return obj

    # ------------------------------------------------------------ statements

    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, n, env):
        p = self.path
        p.steps += 1
        if p.steps > self.step_limit:
            raise Undecided("step limit")
        if self.time_over():
            raise Undecided("time limit")
        self.loc = (env.module.file, n.lineno, self.callstack[-1] if self.callstack else "<module>")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(n).__name__}")
        m(n, env)

    deadline = None

    def time_over(self):
        if self.deadline is None or self.path.steps % 512:
            return False
        import time

        return time.time() > self.deadline

    def s_Expr(self, n, env):
        self.ev(n.value, env)

    def s_Pass(self, n, env):
        pass

    def s_Import(self, n, env):
        for a in n.names:
            v = self.import_module(a.name)
            if a.asname:
                self.bind(env, a.asname, v)
            else:
                top = a.name.split(".")[0]
                self.bind(env, top, v if top == a.name else self.import_module(top))

    def import_module(self, name):
        top = name.split(".")[0]
        if top in self.unavailable:
            self.throw(ImportError, name)
        if top == self.pkg:
            m = self.load(name)
            if m is None:
                self.throw(ImportError, name)
            return m
        return ExtV(name)

    def s_ImportFrom(self, n, env):
        if n.level:
            pkg = env.module.name
            is_pkg = env.module.file.endswith("__init__.py")
            parts = pkg.split(".")
            drop = n.level - (1 if is_pkg else 0)
            if drop:
                parts = parts[:-drop]
            base = ".".join(parts + ([n.module] if n.module else []))
        else:
            base = n.module
            if base == "__future__":
                return
        top = base.split(".")[0]
        if top in self.unavailable:
            self.throw(ImportError, base)
        for a in n.names:
            if top == self.pkg:
                m = self.load(base)
                if m is None:
                    self.throw(ImportError, base)
                if a.name == "*":
                    for k, v in list(m.env.vars.items()):
                        if not k.startswith("_"):
                            self.bind(env, k, v)
                    continue
                if a.name in m.env.vars:
                    v = m.env.vars[a.name]
                else:
                    v = self.load(f"{base}.{a.name}")
                    if v is None:
                        self.throw(ImportError, f"{base}.{a.name}")
            else:
                v = self.lib.external(f"{base}.{a.name}")
            self.bind(env, a.asname or a.name, v)

    def s_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, n, env):
        if env.kind == "class" and isinstance(n.target, ast.Name):
            env.cls.attrs.setdefault("__annotations_order__", []).append(n.target.id)
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)

    def s_AugAssign(self, n, env):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            setter = lambda v: self.bind(env, t.id, v)  # noqa: E731
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, env)
            name = self.mangle(t.attr, env)
            cur = self.getattr(obj, name)
            setter = lambda v: self.setattr(obj, name, v)  # noqa: E731
        else:
            obj = self.ev(t.value, env)
            idx = self.ev(t.slice, env)
            cur = self.getitem(obj, idx)
            setter = lambda v: self.setitem(obj, idx, v)  # noqa: E731
        val = self.ev(n.value, env)
        op = type(n.op).__name__
        if isinstance(cur, ListV) and op == "Add":
            for x in self.to_list(val):
                cur.items.append(x)
            setter(cur)
            return
        if isinstance(cur, SetV) and op in ("BitOr", "Sub", "BitAnd"):
            r = self.binop(op, cur, val)
            cur.items = r.items
            setter(cur)
            return
        if isinstance(cur, DictV) and op == "BitOr":
            self.lib.method(self, cur, "update", [val], {})
            setter(cur)
            return
        f = getattr(cur, "v_iaug", None)
        if f is not None:
            r = f(self, op, val)
            if r is not NotImplemented:
                setter(r)
                return
        setter(self.binop(op, cur, val))

    def s_Return(self, n, env):
        raise ReturnSig(self.ev(n.value, env) if n.value is not None else None)

    def s_Break(self, n, env):
        raise BreakSig

    def s_Continue(self, n, env):
        raise ContinueSig

    def s_If(self, n, env):
        if self.truth(self.ev(n.test, env)):
            self.block(n.body, env)
        else:
            self.block(n.orelse, env)

    def s_While(self, n, env):
        i = 0
        while True:
            if self.loop_hook:
                self.loop_hook(self, n, env, i)
            if not self.truth(self.ev(n.test, env)):
                self.block(n.orelse, env)
                return
            i += 1
            if i > 10000:
                raise Undecided("loop bound")
            try:
                self.block(n.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue

    def s_For(self, n, env):
        it = self.ev(n.iter, env)
        broke = []

        def cb(x):
            self.assign(n.target, x, env)
            try:
                self.block(n.body, env)
            except ContinueSig:
                pass
            except BreakSig:
                broke.append(1)
                raise StopConsume from None
            except ReturnSig as e:
                broke.append(e)
                raise StopConsume from None
            except StopConsume:
                broke.append("outer")
                raise

        self.iterate(it, cb)
        if not broke:
            self.block(n.orelse, env)
        elif isinstance(broke[0], ReturnSig):
            raise broke[0]
        elif broke[0] == "outer":
            raise StopConsume

    def s_FunctionDef(self, n, env):
        f = self.make_func(n, env)
        v = f
        for d in reversed(n.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        self.bind(env, n.name, v)

    def decorate(self, d, v):
        return self.call(d, [v], {})

    def make_func(self, n, env):
        f = FuncV()
        f.node = n
        f.name = getattr(n, "name", "<lambda>")
        f.module = env.module
        f.env = env
        f.attrs = {}
        outer = env
        while outer.kind == "comp":
            outer = outer.parent
        pre = env.module.name
        if outer.kind == "function":
            pre = outer.func.qualname + ".<locals>"
        elif outer.kind == "class":
            pre = outer.cls.qualname
        f.qualname = f"{pre}.{f.name}"
        cls_env = env
        while cls_env is not None and cls_env.cls is None:
            cls_env = cls_env.parent
        f.cls = cls_env.cls if cls_env is not None else None
        if id(n) not in self.scopes:
            self.scopes[id(n)] = Scope(n)
        f.info = self.scopes[id(n)]
        a = n.args
        f.defaults = [self.ev(d, env) for d in a.defaults]
        f.kwdefaults = {
            x.arg: self.ev(d, env)
            for x, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None
        }
        return f

    def s_ClassDef(self, n, env):
        bases = [self.ev(b, env) for b in n.bases]
        outer = env
        pre = env.module.name
        if outer.kind == "function":
            pre = outer.func.qualname + ".<locals>"
        elif outer.kind == "class":
            pre = outer.cls.qualname
        c = ClassV(n.name, f"{pre}.{n.name}", env.module, [b for b in bases if b is not object])
        c.node = n
        self.persist(c)
        ce = Env("class", env, env.module)
        ce.cls = c
        self.block(n.body, ce)
        order = c.attrs.get("__annotations_order__", [])
        c.attrs.update(ce.vars)
        c.attrs["__annotations_order__"] = order
        v = c
        for d in reversed(n.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        self.bind(env, n.name, v)

    def s_Raise(self, n, env):
        if n.exc is None:
            cur = self.cur_exc
            if cur is None:
                self.throw(RuntimeError, "No active exception to reraise")
            raise PyExc(cur)
        v = self.ev(n.exc, env)
        if n.cause is not None:
            self.ev(n.cause, env)
        v = self.as_exception(v)
        if v.where is None:
            v.where = self.loc
        raise PyExc(v)

    def as_exception(self, v):
        if isinstance(v, (type, ExtV)) or (isinstance(v, ClassV)):
            v = self.call(v, [], {})
        if isinstance(v, ExcV):
            return v
        if isinstance(v, InstV):
            e = ExcV(v.cls, ())
            e.attrs = v.attrs
            return e
        if isinstance(v, Term):
            e = v_exc_cache(self, v)
            return e
        raise Undecided(f"raise of {v!r}")

    cur_exc = None

    def s_Try(self, n, env):
        try:
            try:
                self.block(n.body, env)
            except PyExc as e:
                self._handle(n, env, e)
            except StopConsume:
                self._handle_close(n, env)
            else:
                self.block(n.orelse, env)
        except (Pruned, Undecided, Violation, AnalysisBroken):
            raise
        except BaseException:
            loc = self.loc
            self.block(n.finalbody, env)
            self.loc = loc
            raise
        else:
            self.block(n.finalbody, env)

    def _handle(self, n, env, e):
        for h in n.handlers:
            if h.type is None or exc_is(e.val.cls, self._exc_target(self.ev(h.type, env))):
                if h.name:
                    self.bind(env, h.name, e.val)
                prev, self.cur_exc = self.cur_exc, e.val
                try:
                    self.block(h.body, env)
                finally:
                    self.cur_exc = prev
                if h.name:
                    self.holder(env, h.name).vars.pop(h.name, None)
                return
        raise e

    def _handle_close(self, n, env):
        """The generator is closed at a yield inside the statement: its handlers see GeneratorExit."""
        x = ExcV(GeneratorExit, ())
        x.where = self.loc
        try:
            self._handle(n, env, PyExc(x))
        except PyExc as e:
            if e.val is x:
                raise StopConsume from None
            raise

    def _exc_target(self, v):
        if isinstance(v, (tuple, list)):
            return tuple(self._exc_target(x) for x in v)
        return v

    def s_With(self, n, env):
        self._with(n.items, n.body, env)

    def _with(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        if isinstance(cm, GenV):  # @contextmanager
            self._with_gen(cm, it, items, body, env)
            return
        val = self.enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, env)
        try:
            self._with(items[1:], body, env)
        except (Pruned, Undecided, Violation, AnalysisBroken):
            raise
        except PyExc as e:
            if self.exit(cm, e.val):
                return
            raise
        except BaseException:
            self.exit(cm, None)
            raise
        else:
            self.exit(cm, None)

    def _with_gen(self, gen, it, items, body, env):
        def cb(x):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, env)
            self._with(items[1:], body, env)

        gen.used = True
        try:
            if gen.run is not None:
                gen.run(cb)
            else:
                self.run_gen(gen, cb)
        except StopConsume:
            raise

    def enter(self, cm):
        return self.call(self.getattr(cm, "__enter__"), [], {})

    def exit(self, cm, exc):
        a = [None, None, None] if exc is None else [exc.cls, exc, None]
        r = self.call(self.getattr(cm, "__exit__"), a, {})
        if exc is not None and r is not None:
            return self.truth(r)
        return False

    def s_Assert(self, n, env):
        if not self.truth(self.ev(n.test, env)):
            self.throw(AssertionError)

    def s_Global(self, n, env):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.holder(env, t.id).vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj, idx = self.ev(t.value, env), self.ev(t.slice, env)
                self.delitem(obj, idx)
            elif isinstance(t, ast.Attribute):
                obj = self.ev(t.value, env)
                if isinstance(obj, InstV):
                    obj.attrs.pop(self.mangle(t.attr, env), None)

    def s_Match(self, n, env):
        subj = self.ev(n.subject, env)
        for c in n.cases:
            if self._match(c.pattern, subj, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def _match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self._match(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self._match(p.pattern, v, env):
                return False
            if p.name:
                self.bind(env, p.name, v)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance(v, self.ev(p.cls, env))
        raise Undecided(f"pattern {type(p).__name__}")

    # ------------------------------------------------------------ names

    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__"):
            e = env
            while e is not None:
                if e.cls is not None:
                    return f"_{e.cls.name.lstrip('_')}{name}"
                if e.kind == "function" and e.func is not None and e.func.cls is not None:
                    return f"_{e.func.cls.name.lstrip('_')}{name}"
                e = e.parent
        return name

    def holder(self, env, name):
        """Environment in which an assignment to ``name`` lands."""
        e = env
        while e.kind == "comp":
            if name in e.vars:
                return e
            e = e.parent
        if e.kind == "function":
            s = e.scope
            if name in s.globals:
                return e.module.env
            if name in s.nonlocals:
                x = e.parent
                while x is not None:
                    if x.kind == "function" and name in x.scope.locals:
                        return x
                    if x.kind == "function" and name in x.scope.nonlocals:
                        x = x.parent
                        continue
                    x = x.parent
                raise Undecided(f"nonlocal {name}")
        return e

    def bind(self, env, name, v):
        h = self.holder(env, name)
        h.vars[self.mangle(name, h) if h.kind == "class" else name] = v

    def lookup(self, env, name):
        private = name.startswith("__") and not name.endswith("__") and self.mangle(name, env)
        if private:
            e = env
            while e is not None:
                if e.kind == "comp" and name in e.vars or e.kind == "function" and name in e.scope.locals:
                    break
                e = e.parent
            else:
                name = private
        e = env
        first = True
        while e is not None:
            if e.kind == "function":
                s = e.scope
                if name in s.locals:
                    if name in e.vars:
                        return e.vars[name]
                    self.throw(UnboundLocalError, name)
                if name in s.globals:
                    e = e.module.env
                    continue
            elif e.kind == "class":
                if first and name in e.vars:
                    return e.vars[name]
            elif name in e.vars:
                return e.vars[name]
            if e.kind != "comp":
                first = False
            e = e.parent
        v = self.lib.builtin(name)
        if isinstance(v, _Missing):
            self.throw(NameError, name)
        return v

    # ------------------------------------------------------------ expressions

    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(n).__name__}")
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(env, n.id)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return self.persist(ListV(self.elts(n.elts, env)))

    def e_Set(self, n, env):
        return self.persist(SetV(self.elts(n.elts, env)))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_list(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, n, env):
        d = DictV()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.lib.method(self, d, "update", [self.ev(v, env)], {})
            else:
                kk = self.ev(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return self.persist(d)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.kind == "comp":
            e = e.parent
        self.bind(e, n.target.id, v)
        return v

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = None
        for x in n.values[:-1]:
            v = self.ev(x, env)
            if self.truth(v) != is_and:
                # the value is known to be falsy (and) or truthy (or)
                if isinstance(v, Term) and v.kind == "bool":
                    return not is_and
                return v
        return self.ev(n.values[-1], env)

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        return self.unop(type(n.op).__name__, v)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(type(n.op).__name__, a, b)

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        r = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, env)
            r = self.compare(type(op).__name__, a, b)
            if i < len(n.ops) - 1 and not self.truth(r):
                return False
            a = b
        return r

    def e_Call(self, n, env):
        # super() and locals-sensitive calls are not needed by the analysed code
        f = self.ev(n.func, env)
        args = self.elts(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, DictV):
                    for kk, vv in d.items.values():
                        kw[kk] = vv
                else:
                    raise Undecided("** of unknown mapping")
            else:
                kw[k.arg] = self.ev(k.value, env)
        loc = self.loc
        self.loc = (env.module.file, n.lineno, loc[2])
        if not self.loading:
            self.call_sites.add((env.module.file, n.lineno, n.col_offset))
        r = self.call(f, args, kw)
        self.loc = loc
        return r

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), self.mangle(n.attr, env))

    def e_Subscript(self, n, env):
        return self.getitem(self.ev(n.value, env), self.ev(n.slice, env))

    def e_Slice(self, n, env):
        return slice(
            self.ev(n.lower, env) if n.lower is not None else None,
            self.ev(n.upper, env) if n.upper is not None else None,
            self.ev(n.step, env) if n.step is not None else None,
        )

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ""
                parts.append(self.fmt(x, v.conversion, spec))
        return self.cat(parts, "str")

    def fmt(self, x, conv, spec):
        if is_conc(x) and isinstance(spec, str):
            if conv == 114:
                x = repr(x)
            elif conv == 115:
                x = str(x)
            elif conv == 97:
                x = ascii(x)
            return format(x, spec)
        if conv in (-1, 115) and spec == "":
            return self.lib.to_str(self, x)
        return Term("format", (self.wrap(x), conv, spec if isinstance(spec, str) else "?"), "str")

    def wrap(self, x):
        return x

    def e_ListComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return self.persist(ListV(out))

    def e_SetComp(self, n, env):
        out = SetV()
        self.comp(n.generators, env, lambda e: self.set_add(out, self.ev(n.elt, e)))
        return self.persist(out)

    def e_DictComp(self, n, env):
        out = DictV()

        def f(e):
            k = self.ev(n.key, e)
            self.dict_set(out, k, self.ev(n.value, e))

        self.comp(n.generators, env, f)
        return self.persist(out)

    def e_GeneratorExp(self, n, env):
        first = self.ev(n.generators[0].iter, env)

        def run(cb):
            self.comp(n.generators, env, lambda e: cb(self.ev(n.elt, e)), first=first)

        return GenV(None, None, run)

    def comp(self, gens, env, f, i=0, first=MISSING):
        ce = Env("comp", env, env.module)
        g = gens[i]
        it = self.ev(g.iter, env) if first is MISSING else first

        def cb(x):
            self.comp_assign(g.target, x, ce)
            for c in g.ifs:
                if not self.truth(self.ev(c, ce)):
                    return
            if i + 1 < len(gens):
                self.comp(gens, ce, f, i + 1)
            else:
                f(ce)

        self.iterate(it, cb)

    def comp_assign(self, t, v, ce):
        if isinstance(t, ast.Name):
            ce.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x, y in self.unpack(t.elts, v):
                if isinstance(x, ast.Starred):
                    ce.vars[x.value.id] = y
                else:
                    self.comp_assign(x, y, ce)
        else:
            self.assign(t, v, ce)

    def gen_env(self, env):
        e = env
        while e.kind != "function":
            e = e.parent
        return e

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        e = self.gen_env(env)
        if e.gen_cb is None:
            raise Undecided("yield outside of iteration")
        loc = self.loc
        stack = self.callstack
        self.callstack = stack[:-1]
        try:
            e.gen_cb(v)
        finally:
            self.callstack = stack
        self.loc = loc
        return None

    def e_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        e = self.gen_env(env)
        self.iterate_raw(v, e.gen_cb)
        return None

    def e_Starred(self, n, env):
        raise Undecided("starred")

    def e_Await(self, n, env):
        raise Undecided("await")

    # ------------------------------------------------------------ assignment

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x, y in self.unpack(t.elts, v):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Undecided(f"assignment to {type(t).__name__}")

    def unpack(self, elts, v):
        star = next((i for i, x in enumerate(elts) if isinstance(x, ast.Starred)), None)
        if isinstance(v, Term) and star is None:
            items = self.lib.unpack(self, v, len(elts))
        else:
            items = self.to_list(v)
        if star is None:
            if len(items) != len(elts):
                self.throw(ValueError, "unpack")
            return list(zip(elts, items))
        after = len(elts) - star - 1
        if len(items) < len(elts) - 1:
            self.throw(ValueError, "unpack")
        mid = self.persist(ListV(items[star : len(items) - after]))
        return [
            *zip(elts[:star], items[:star]),
            (elts[star], mid),
            *zip(elts[star + 1 :], items[len(items) - after :]),
        ]

    # ------------------------------------------------------------ operations

    def throw(self, cls, *args):
        if cls is IndexError and self.watch_bounds and self.loc[2] in self.unchecked:
            raise Violation("compiled code, which does not check bounds, reads past the end of a buffer")
        e = ExcV(cls, args)
        e.where = self.loc
        raise PyExc(e)

    def truth(self, v):
        if isinstance(v, AbsVal):
            r = v.v_truth(self)
            if r is not NotImplemented:
                return r
            if isinstance(v, (ListV, SetV, DictV)):
                return bool(v.items)
            if isinstance(v, Term):
                if v.maybe_none and self.lit(Term("isnone", (v,), "bool")):
                    return False
                k = v.kind
                if k == "bool":
                    if v.op == "not":
                        return not self.truth(v.args[0])
                    return self.lit(v)
                if k == "int":
                    return not self.decide_eq(Aff({v: 1}, 0), f"{v!r} == 0")
                if k in ("str", "bytes", "list", "dict", "set"):
                    if v.op == "solid":
                        return True
                    if v.op == "cat" and any(isinstance(x, (str, bytes)) and x for x in v.args):
                        return True
                    if v in self.path.eqs:
                        return self.path.eqs[v] not in (ckey(""), ckey(b""))
                    if v in self.path.cands and not self.path.cands[v] & {ckey(""), ckey(b"")}:
                        return True
                    return self.lit(Term("nonempty", (v,), "bool"))
                if k in ("func", "function", "true"):
                    return True
                return self.lit(Term("truth", (v,), "bool"))
            if isinstance(v, Aff):
                return not self.decide_eq(v)
            if isinstance(v, InstV):
                for nm in ("__bool__", "__len__"):
                    f = v.cls.lookup(nm)
                    if f is not MISSING:
                        return self.truth(self.call(BoundV(v, f), [], {}))
                return True
            return True
        return bool(v)

    def unop(self, op, v):
        if isinstance(v, AbsVal):
            r = v.v_unop(self, op)
            if r is not NotImplemented:
                return r
        if op == "Not":
            if isinstance(v, Term) and v.kind == "bool" and v not in self.path.lits:
                return not self.truth(v)
            return not self.truth(v)
        if is_conc(v):
            try:
                return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
            except Exception as e:  # noqa: BLE001
                self.throw(type(e), *e.args)
        a = to_aff(v)
        if a is not None:
            if op == "USub":
                return norm_aff(aff_scale(a, -1))
            if op == "UAdd":
                return v
            if op == "Invert":
                return norm_aff(aff_add(aff_scale(a, -1), Aff({}, -1)))
        return Term("u" + op, (v,), getattr(v, "kind", "obj"))

    def binop(self, op, a, b):
        if isinstance(a, AbsVal):
            r = a.v_binop(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, AbsVal):
            r = b.v_binop(self, op, a, True)
            if r is not NotImplemented:
                return r
        if is_conc(a) and is_conc(b):
            try:
                return _BIN[op](a, b)
            except Exception as e:  # noqa: BLE001
                self.throw(type(e), *e.args)
        # user-defined operators
        if isinstance(a, InstV):
            f = a.cls.lookup(_DUNDER[op])
            if f is not MISSING:
                return self.call(BoundV(a, f), [b], {})
        # sequences
        if op == "Add":
            if isinstance(a, ListV) and isinstance(b, ListV):
                return self.persist(ListV([*a.items, *b.items]))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            ka, kb = self.kindof(a), self.kindof(b)
            if ka in ("str", "bytes") and (kb == ka or kb == "obj") or kb in ("str", "bytes") and ka == "obj":
                return self.cat([a, b], ka if ka in ("str", "bytes") else kb)
        if op == "Mult":
            if isinstance(a, ListV) and isinstance(b, int):
                return self.persist(ListV(a.items * b))
            if isinstance(b, ListV) and isinstance(a, int):
                return self.persist(ListV(b.items * a))
            if isinstance(a, tuple) and isinstance(b, int):
                return a * b
        if isinstance(a, (SetV, frozenset)) and isinstance(b, (SetV, frozenset, DictV)):
            A = {ckey(x): x for x in self.to_list(a)}
            B = {ckey(x): x for x in self.to_list(b)}
            if op == "BitOr":
                return self.persist(SetV([*A.values(), *B.values()]))
            if op == "BitAnd":
                return self.persist(SetV([A[k] for k in A if k in B]))
            if op == "Sub":
                return self.persist(SetV([A[k] for k in A if k not in B]))
        if isinstance(a, DictV) and isinstance(b, DictV) and op == "BitOr":
            d = DictV(list(a.items.values()))
            for k, v in b.items.values():
                self.dict_set(d, k, v)
            return self.persist(d)
        if op == "Mod" and isinstance(a, (str, bytes)):
            return self.percent(a, b)
        # affine integers
        x, y = to_aff(a), to_aff(b)
        if x is not None and y is not None:
            if op == "Add":
                return norm_aff(aff_add(x, y))
            if op == "Sub":
                return norm_aff(aff_add(x, y, -1))
            if op == "Mult":
                if not y.c:
                    return norm_aff(aff_scale(x, y.k))
                if not x.c:
                    return norm_aff(aff_scale(y, x.k))
            if op == "LShift" and not y.c and y.k >= 0:
                return norm_aff(aff_scale(x, 2 ** int(y.k)))
            if (op == "FloorDiv" and not y.c and y.k > 0) or (op == "RShift" and not y.c and 0 <= y.k < 64 and x.c):
                n = int(y.k) if op == "FloorDiv" else 1 << int(y.k)
                if all(v % n == 0 for v in x.c.values()) and x.k % n == 0:
                    return norm_aff(Aff({t: v // n for t, v in x.c.items()}, x.k // n))
                if n == 1:
                    return norm_aff(x)
            if op == "Mod" and not y.c and y.k > 0:
                return Term("mod", (norm_aff(x), int(y.k)), "int")
            if isinstance(a, bool) and op in ("BitAnd", "BitOr"):
                pass
            return Term(op, (a, b), "int")
        ka, kb = self.kindof(a), self.kindof(b)
        if ka == "bool" or kb == "bool":
            if op == "BitAnd":
                return self.truth(a) and self.truth(b)
            if op == "BitOr":
                return self.truth(a) or self.truth(b)
            if op in ("Mult", "Add", "Sub"):
                if ka == "bool":
                    return self.binop(op, int(self.truth(a)), b)
                return self.binop(op, a, int(self.truth(b)))
        return Term(op, (a, b), ka if ka == kb else "obj")

    def kindof(self, v):
        if isinstance(v, AbsVal):
            return v.kind
        return type(v).__name__

    def percent(self, a, b):
        """``%`` formatting of a known format."""
        kind = type(a).__name__
        if is_conc(a) and is_conc(b):
            try:
                return a % b
            except Exception as e:  # noqa: BLE001
                self.throw(type(e), *e.args)
        src = a if kind == "str" else a.decode("latin-1")
        enc = (lambda t: t) if kind == "str" else (lambda t: t.encode("latin-1"))
        args = list(b) if isinstance(b, tuple) else [b]
        named = isinstance(b, DictV)
        out, pos, n = [], 0, 0
        for m in re.finditer(r"%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([srdbai%])", src):
            if "%" in src[pos : m.start()]:
                break
            out.append(enc(src[pos : m.start()]))
            pos = m.end()
            if m[3] == "%":
                out.append(enc("%"))
                continue
            if m[1] is not None and named:
                v = self.getitem(b, m[1])
            elif n < len(args):
                v = args[n]
                n += 1
            else:
                self.throw(TypeError, "not enough arguments for format string")
            if m[2] or (kind == "bytes" and m[3] not in "sb"):
                break
            if kind == "bytes":
                out.append(v)
            else:
                out.append(self.fmt(v, ord(m[3]) if m[3] in "ra" else -1, ""))
        else:
            if "%" not in src[pos:]:
                if not named and n < len(args):
                    self.throw(TypeError, "not all arguments converted during string formatting")
                out.append(enc(src[pos:]))
                return self.cat(out, kind)
        return Term("format%", (a, b), kind)

    def cat(self, parts, kind):
        """Concatenation in normal form."""
        if any(hasattr(p, "v_bytes") for p in parts):
            r = parts[0]
            for p in parts[1:]:
                r = self.binop("Add", r, p)
            return r
        out = []
        empty = "" if kind == "str" else b""
        for p in parts:
            if isinstance(p, Term) and p.op == "cat":
                sub_ = p.args
            else:
                sub_ = (p,)
            for x in sub_:
                if type(x) is type(empty):
                    if not x:
                        continue
                    if out and type(out[-1]) is type(empty):
                        out[-1] = out[-1] + x
                        continue
                out.append(x)
        if not out:
            return empty
        if len(out) == 1:
            return out[0]
        if len(out) > 400:
            raise Undecided("a text of more than 400 pieces")
        return Term("cat", tuple(out), kind)

    def is_(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if x is None:
                if isinstance(y, Term):
                    return y.maybe_none and self.lit(Term("isnone", (y,), "bool"))
                return False
            if isinstance(x, bool) and isinstance(y, Term) and y.kind == "bool":
                return self.truth(y) == x
        if isinstance(a, (Term, Aff)) and isinstance(b, (Term, Aff)):
            if isinstance(a, Term) and isinstance(b, Term) and a.kind not in ("int", "str", "bytes"):
                return self.lit(Term("is", tuple(sorted((a, b), key=repr)), "bool"))
            return self.truth(self.compare("Eq", a, b))
        if isinstance(a, AbsVal) or isinstance(b, AbsVal):
            if isinstance(a, MethV) and isinstance(b, MethV):
                return a == b
            return False
        return a is b or (type(a) is type(b) and isinstance(a, (int, str, bytes)) and a == b)

    def compare(self, op, a, b):
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return not self.is_(a, b)
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return not self.truth(self.contains(b, a))
        if isinstance(a, AbsVal):
            r = a.v_compare(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, AbsVal):
            r = b.v_compare(self, op, a, True)
            if r is not NotImplemented:
                return r
        if is_conc(a) and is_conc(b):
            try:
                return _CMP[op](a, b)
            except Exception as e:  # noqa: BLE001
                self.throw(type(e), *e.args)
        x, y = to_aff(a), to_aff(b)
        if x is not None and y is not None:
            d = aff_add(x, y, -1)
            show = f"{short(a)} {_SYM[op]} {short(b)}"
            if op == "Eq":
                return self.decide_eq(d, f"{short(a)} == {short(b)}")
            if op == "NotEq":
                return not self.decide_eq(d, f"{short(a)} == {short(b)}")
            if op == "GtE":
                return self.decide_ge(d, show)
            if op == "LtE":
                return self.decide_ge(aff_scale(d, -1), show)
            if op == "Gt":
                return self.decide_ge(aff_add(d, Aff({}, -1)), show)
            return self.decide_ge(aff_add(aff_scale(d, -1), Aff({}, -1)), show)
        if op == "NotEq":
            return not self.truth(self.compare("Eq", a, b))
        if op == "Eq":
            return self.equal(a, b)
        if isinstance(a, (SetV, frozenset)) and isinstance(b, (SetV, frozenset)):
            A = {ckey(v) for v in self.to_list(a)}
            B = {ckey(v) for v in self.to_list(b)}
            return _CMP[op](A, B)
        return Term(op, (a, b), "bool")

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            x = a if isinstance(a, tuple) else a.items
            y = b if isinstance(b, tuple) else b.items
            if len(x) != len(y):
                return False
            return all(self.truth(self.compare("Eq", p, q)) for p, q in zip(x, y))
        if isinstance(a, (SetV, frozenset)) and isinstance(b, (SetV, frozenset)):
            return {ckey(v) for v in self.to_list(a)} == {ckey(v) for v in self.to_list(b)}
        if isinstance(a, DictV) and isinstance(b, DictV):
            if a.items.keys() != b.items.keys():
                return False
            return all(self.truth(self.compare("Eq", a.items[k][1], b.items[k][1])) for k in a.items)
        if isinstance(a, InstV) and isinstance(b, InstV):
            f = a.cls.lookup("__eq__")
            if f is not MISSING:
                return self.call(BoundV(a, f), [b], {})
            if a.cls is b.cls and a.cls.fields is not None:
                return all(
                    self.truth(self.compare("Eq", a.attrs.get(k), b.attrs.get(k))) for k, _ in a.cls.fields
                )
            return False
        ta, tb = isinstance(a, Term), isinstance(b, Term)
        if ta or tb:
            ka, kb = self.kindof(a), self.kindof(b)
            if ka != kb and "obj" not in (ka, kb) and {ka, kb} - {"int", "float", "bool"}:
                if not ((ta and a.maybe_none and b is None) or (tb and b.maybe_none and a is None)):
                    return False
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Term) and is_conc(y):
                    if y is None:
                        return self.is_(x, y)
                    if y == "" or y == b"":
                        return not self.truth(x)
                    return self.eq_const(x, y)
            if ta and tb and (cannot_be_same(a, b) or cannot_be_same(b, a)):
                return False
            return self.lit(Term("eq", tuple(sorted((a, b), key=repr)), "bool"))
        if isinstance(a, (ExtV, MethV, FuncV, ClassV, ModV, Builtin, BoundV)) or isinstance(
            b, (ExtV, MethV, FuncV, ClassV, ModV, Builtin, BoundV)
        ):
            if isinstance(a, BoundV) and isinstance(b, BoundV):
                return a.obj is b.obj and a.func is b.func
            return a == b if type(a) is type(b) else False
        if isinstance(a, AbsVal) != isinstance(b, AbsVal):
            return False
        return False

    def eq_const(self, x, y):
        p = self.path
        k = ckey(y)
        if x in p.eqs:
            return p.eqs[x] == k
        r = self.lib.eq_const(self, x, y)
        if r is not None:
            return r
        return self.in_consts(x, {k})

    def in_consts(self, x, keys):
        """Whether the term is one of the constants (given by keys); consistent between overlapping sets."""
        p = self.path
        if x.op == "solid":  # an ordinary text without blanks at its ends
            return False
        if x in p.eqs:
            return p.eqs[x] in keys
        if x.op in ("shown", "cat"):
            keys = {k for k in keys if not (k[0] == "str" and cannot_be(x, k[1]))}
        cands = p.cands.get(x)
        empty = {ckey(""), ckey(b"")}
        known_nonempty = p.lits.get(Term("nonempty", (x,), "bool")) if x.kind in ("str", "bytes") else None
        if cands is None:
            pos = set(keys) - p.excl.get(x, set())
            if known_nonempty is True:
                pos -= empty
            elif known_nonempty is False:
                pos &= empty
                if not pos:
                    return False
                if ckey("" if x.kind == "str" else b"") in keys:
                    return True
            if not pos:
                return False
            neg = True
        else:
            pos = cands & set(keys)
            neg = bool(cands - pos)
            if not pos:
                return False
            if not neg:
                return True
        if len(keys) == 1:
            show = f"{x!r} == {next(iter(keys))[1]!r}"
        else:
            show = f"{x!r} in ({len(keys)} constants)"
        if not neg or self.choose(2, show, ("true", "false")) == 0:
            p.cands[x] = pos
            if len(pos) == 1:
                p.eqs[x] = next(iter(pos))
            if not pos & empty and x.kind in ("str", "bytes"):
                p.lits[Term("nonempty", (x,), "bool")] = True
            return True
        p.excl.setdefault(x, set()).update(keys)
        if cands is not None:
            p.cands[x] = cands - pos
            if len(p.cands[x]) == 1:
                p.eqs[x] = next(iter(p.cands[x]))
        return False

    def contains(self, c, x):
        if isinstance(c, AbsVal):
            r = c.v_contains(self, x)
            if r is not NotImplemented:
                return r
        if is_conc(c) and is_conc(x):
            try:
                return x in c
            except Exception as e:  # noqa: BLE001
                self.throw(type(e), *e.args)
        if isinstance(c, (str, bytes)) or isinstance(c, Term):
            if isinstance(c, (frozenset,)):
                pass
            return Term("in", (x, c), "bool")
        if isinstance(c, (frozenset, SetV, DictV)):
            items = (
                list(c)
                if isinstance(c, frozenset)
                else [v[0] for v in c.items.values()]
                if isinstance(c, DictV)
                else list(c.items.values())
            )
            keys = c.items if not isinstance(c, frozenset) else {ckey(v) for v in items}
            if ckey(x) in keys:
                return True
            if is_conc(x) and all(is_conc(v) for v in items):
                return any(v == x for v in items)
            if not items:
                return False
            if isinstance(x, Term) and all(is_conc(v) for v in items) and (x.kind in ("str", "bytes") or len(items) > 4):
                if x.maybe_none and self.lit(Term("isnone", (x,), "bool")):
                    return None in items
                return self.in_consts(x, {ckey(v) for v in items if self.kindof(v) == x.kind or x.kind == "obj"})
            return any(self.truth(self.compare("Eq", x, v)) for v in items)
        if isinstance(c, (tuple, ListV)):
            items = c if isinstance(c, tuple) else c.items
            for v in items:
                if self.is_(x, v) if not isinstance(x, (Term, Aff)) and not isinstance(v, (Term, Aff)) else x is v:
                    return True
            if isinstance(x, Term) and all(is_conc(v) for v in items) and (x.kind in ("str", "bytes") or len(items) > 4):
                if x.maybe_none and self.lit(Term("isnone", (x,), "bool")):
                    return any(v is None for v in items)
                return self.in_consts(x, {ckey(v) for v in items if self.kindof(v) == x.kind or x.kind == "obj"})
            return any(self.truth(self.compare("Eq", x, v)) for v in items)
        if isinstance(c, range):
            a = to_aff(x)
            if a is not None and c.step == 1:
                return self.truth(self.compare("GtE", x, c.start)) and self.truth(self.compare("Lt", x, c.stop))
        if isinstance(c, InstV):
            f = c.cls.lookup("__contains__")
            if f is not MISSING:
                return self.call(BoundV(c, f), [x], {})
        if isinstance(c, (GenV, IterV)):
            return any(self.truth(self.compare("Eq", x, v)) for v in self.to_list(c))
        raise Undecided(f"membership in {short(c)}")

    # ------------------------------------------------------------ containers

    def dict_find(self, d, k):
        kk = ckey(k)
        if kk in d.items:
            return kk
        if is_conc(k) and not isinstance(k, (int, float)):
            cand = [x for x, (y, _) in d.items.items() if not is_conc(y)]
        elif is_conc(k):
            for x, (y, _) in d.items.items():
                if is_conc(y) and y == k:
                    return x
            cand = [x for x, (y, _) in d.items.items() if not is_conc(y)]
        else:
            cand = list(d.items)
        if len(cand) > 30:
            raise Undecided("symbolic key of a large mapping")
        for x in cand:
            y = d.items[x][0]
            if isinstance(y, (FuncV, ClassV)) or isinstance(k, (FuncV, ClassV)):
                continue
            if self.truth(self.compare("Eq", k, y)):
                return x
        return None

    def dict_get(self, d, k, default=MISSING):
        if len(d.items) > 30 and isinstance(k, AbsVal) and not isinstance(k, HeapObj) and ckey(k) not in d.items:
            known = self.path.eqs.get(k) if isinstance(k, Term) else None
            if known is not None:
                return d.items[known][1] if known in d.items else default
            if self.lit(Term("haskey", (d, k), "bool")):
                return Term("lookup", (d, k), self.kindof(next(iter(d.items.values()))[1]))
            return default
        x = self.dict_find(d, k)
        if x is None:
            return default
        return d.items[x][1]

    def dict_set(self, d, k, v):
        x = self.dict_find(d, k)
        if x is None:
            d.items[ckey(k)] = (k, v)
        else:
            d.items[x] = (d.items[x][0], v)

    def set_add(self, s, x):
        if not self.truth(self.contains(s, x)):
            s.items[ckey(x)] = x

    def getitem(self, o, i):
        if isinstance(o, AbsVal):
            r = o.v_getitem(self, i)
            if r is not NotImplemented:
                return r
        if isinstance(o, DictV):
            v = self.dict_get(o, i)
            if v is MISSING:
                if o.default is not None:
                    v = self.call(o.default, [], {})
                    self.dict_set(o, i, v)
                    return v
                self.throw(KeyError, i)
            return v
        if isinstance(o, (tuple, ListV)):
            items = o if isinstance(o, tuple) else o.items
            if isinstance(i, slice):
                if is_conc(i):
                    r = items[i]
                    return r if isinstance(o, tuple) else self.persist(ListV(r))
                raise Undecided("symbolic slice of a list")
            if isinstance(i, bool) or isinstance(i, int):
                if -len(items) <= i < len(items):
                    return items[i]
                self.throw(IndexError, "index out of range")
            a = to_aff(i)
            if a is not None:
                for j in range(len(items)):
                    if self.truth(self.compare("Eq", i, j)):
                        return items[j]
                self.throw(IndexError, "index out of range")
            raise Undecided(f"index {short(i)}")
        if is_conc(o) and is_conc(i):
            try:
                return o[i]
            except Exception as e:  # noqa: BLE001
                self.throw(type(e), *e.args)
        if isinstance(o, Term):
            return self.lib.term_getitem(self, o, i)
        if isinstance(o, (str, bytes)):
            return Term("index", (o, i), type(o).__name__)
        if isinstance(o, InstV):
            f = o.cls.lookup("__getitem__")
            if f is not MISSING:
                return self.call(BoundV(o, f), [i], {})
            if o.cls.fields is not None and isinstance(i, str):
                return o.attrs[i]
        if isinstance(o, (ExtV, ClassV, type)):
            return o  # generic alias
        raise Undecided(f"subscript of {short(o)}")

    def setitem(self, o, i, v):
        if isinstance(o, AbsVal):
            r = o.v_setitem(self, i, v)
            if r is not NotImplemented:
                return
        if isinstance(o, DictV):
            self.dict_set(o, i, v)
            return
        if isinstance(o, ListV):
            if isinstance(i, int) or (isinstance(i, slice) and is_conc(i)):
                if isinstance(i, slice):
                    o.items[i] = self.to_list(v)
                    return
                if not -len(o.items) <= i < len(o.items):
                    self.throw(IndexError, "assignment index out of range")
                o.items[i] = v
                return
            if to_aff(i) is not None:
                for j in range(len(o.items)):
                    if self.truth(self.compare("Eq", i, j)):
                        o.items[j] = v
                        return
                self.throw(IndexError, "assignment index out of range")
        if isinstance(o, InstV):
            f = o.cls.lookup("__setitem__")
            if f is not MISSING:
                self.call(BoundV(o, f), [i, v], {})
                return
        raise Undecided(f"assignment to an item of {short(o)}")

    def delitem(self, o, i):
        if isinstance(o, DictV):
            x = self.dict_find(o, i)
            if x is None:
                self.throw(KeyError, i)
            del o.items[x]
            return
        if isinstance(o, ListV) and is_conc(i):
            del o.items[i]
            return
        raise Undecided("del")

    def to_list(self, v):
        if isinstance(v, ListV):
            return list(v.items)
        if isinstance(v, (tuple, frozenset, range, str, bytes, list)):
            return sorted(v, key=repr) if isinstance(v, frozenset) else list(v)
        out = []
        self.iterate(v, out.append)
        return out

    def iterate(self, v, cb):
        """Feed the items of an iterable to a callback; StopConsume of the callback ends it."""
        try:
            self._iterate(v, cb)
        except StopConsume:
            return

    def _iterate(self, v, cb):
        if isinstance(v, AbsVal):
            r = v.v_iter(self, cb)
            if r is not NotImplemented:
                return
        if isinstance(v, ListV):
            i = 0
            while i < len(v.items):
                cb(v.items[i])
                i += 1
            return
        if isinstance(v, (tuple, range, str, bytes, list)):
            for x in v:
                cb(x)
            return
        if isinstance(v, frozenset):
            for x in sorted(v, key=repr):
                cb(x)
            return
        if isinstance(v, SetV):
            for x in list(v.items.values()):
                cb(x)
            return
        if isinstance(v, DictV):
            for x in list(v.items.values()):
                cb(x[0])
            return
        if isinstance(v, IterV):
            while v.pos < len(v.items):
                x = v.items[v.pos]
                v.pos += 1
                cb(x)
            return
        if isinstance(v, GenV):
            if v.lazy is not None:
                while (x := v.lazy.next()) is not None:
                    try:
                        cb(x[0])
                    except BaseException:
                        v.lazy.close()
                        raise
                return
            if v.used:
                return
            v.used = True
            closing = []

            def give(x):
                if closing:
                    self.throw(RuntimeError, "generator ignored GeneratorExit")
                try:
                    cb(x)
                except PyExc as e:
                    # an exception of the consumer closes the generator, it is not raised inside
                    closing.append(e)
                    raise StopConsume from None
                except StopConsume:
                    closing.append(None)
                    raise

            try:
                if v.run is not None:
                    v.run(give)
                else:
                    self.run_gen(v, give)
            except StopConsume:
                if closing and closing[0] is not None:
                    raise closing[0] from None
                raise
            if closing:
                # the generator caught its end
                if closing[0] is not None:
                    raise closing[0]
                raise StopConsume
            return
        if isinstance(v, RangeV):
            i = v.start
            n = 0
            while self.truth(self.compare("Lt" if not isinstance(v.step, int) or v.step > 0 else "Gt", i, v.stop)):
                cb(i)
                i = self.binop("Add", i, v.step)
                n += 1
                if n > 50:
                    raise Undecided("symbolic range")
            return
        if isinstance(v, InstV):
            f = v.cls.lookup("__iter__")
            if f is not MISSING:
                it = self.call(BoundV(v, f), [], {})
                if it is not v:
                    self._iterate(it, cb)
                    return
            f = v.cls.lookup("__next__")
            if f is not MISSING:
                n = 0
                while True:
                    try:
                        x = self.call(BoundV(v, f), [], {})
                    except PyExc as e:
                        if exc_is(e.val.cls, StopIteration):
                            return
                        raise
                    cb(x)
                    n += 1
                    if n > 200:
                        raise Undecided("iterator bound")
        if isinstance(v, Term):
            self.lib.term_iter(self, v, cb)
            return
        if isinstance(v, (FuncV, ClassV, type(None), int, float, bool, Aff)):
            self.throw(TypeError, "not iterable")
        raise Undecided(f"iteration over {short(v)}")

    def iterate_raw(self, v, cb):
        """As `iterate`, but the end requested by the callback is passed on."""
        self._iterate(v, cb)

    _ids = 0

    def fresh_id(self):
        n = self.path.data.get("fresh", 0)
        self.path.data["fresh"] = n + 1
        return n + (1000000 if self.loading else 0)

    def load_all(self):
        """Load every module of the package."""
        base = os.path.join(self.repo, self.pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package {base} is missing")
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.load(rel)
        self.snapshot()
        return self

    def lazy(self, g):
        """The generator as one that is advanced step by step."""
        if g.lazy is None:
            g.lazy = Lazy(self, g)
            if g.used:
                g.lazy.done = True
            g.used = True
            self.lazies.append(g.lazy)
        return g.lazy

    def run_gen(self, g, cb):
        f, env = g.func, g.env

        def wrapped(x):
            cb(x)

        env.gen_cb = wrapped
        self.callstack = [*self.callstack, f.qualname]
        try:
            self.block(f.node.body, env)
        except ReturnSig:
            pass
        except PyExc as e:
            if exc_is(e.val.cls, StopIteration) and e.val.where and e.val.where[2] == f.qualname:
                if f.attrs.get("__numba__"):  # compiled generators end this way
                    return
                x = ExcV(RuntimeError, ("generator raised StopIteration",))
                x.where = e.val.where
                raise PyExc(x) from None
            raise
        finally:
            self.callstack = self.callstack[:-1]

    # ------------------------------------------------------------ attributes

    def getattr(self, o, name):
        if isinstance(o, AbsVal):
            r = o.v_getattr(self, name)
            if r is not NotImplemented:
                return r
        if isinstance(o, InstV):
            return self.inst_getattr(o, name)
        if isinstance(o, ClassV):
            r = o.lookup(name)
            if r is MISSING:
                if name == "__name__":
                    return o.name
                if name == "__new__":
                    return Builtin("__new__", lambda e, a, k: InstV(a[0]))
                if name == "__annotations__":
                    return DictV()
                self.throw(AttributeError, name)
            if isinstance(r, StaticV):
                return r.func
            if isinstance(r, ClassMethV):
                return BoundV(o, r.func)
            return r
        if isinstance(o, ModV):
            if name in o.env.vars:
                return o.env.vars[name]
            m = self.load(f"{o.name}.{name}")
            if m is None:
                self.throw(AttributeError, name)
            return m
        if isinstance(o, ExtV):
            return self.lib.external(f"{o.name}.{name}")
        if isinstance(o, FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.qualname
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name in ("__annotations__", "__dict__"):
                return DictV()
            if name == "__wrapped__":
                self.throw(AttributeError, name)
            if name == "__get__":
                return Builtin("__get__", lambda e, a, k: BoundV(a[0], o) if a[0] is not None else o)
            return Term("attr", (o, name))
        if isinstance(o, ExcV):
            if name == "args":
                return o.args
            if name in o.attrs:
                return o.attrs[name]
            if name in ("with_traceback", "add_note"):
                return Builtin(name, lambda e, a, k: o)
            if name in ("__traceback__", "__cause__", "__context__"):
                return None
            if name == "value":
                return o.args[0] if o.args else None
            self.throw(AttributeError, name)
        if isinstance(o, PropV) and name in ("setter", "getter", "deleter"):
            return Builtin(name, lambda e, a, k: o)
        return self.lib.attr(self, o, name)

    def inst_getattr(self, o, name):
        c = o.cls.lookup(name)
        if isinstance(c, PropV):
            if c.cached and name in o.attrs:
                return o.attrs[name]
            v = self.call(c.func, [o], {})
            if c.cached:
                o.attrs[name] = v
            return v
        if name in o.attrs:
            return o.attrs[name]
        if c is MISSING:
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = DictV()
                d.items = AttrItems(o.attrs)
                return d
            f = o.cls.lookup("__getattr__")
            if f is not MISSING:
                return self.call(BoundV(o, f), [name], {})
            self.throw(AttributeError, f"{o.cls.name}.{name}")
        if isinstance(c, FuncV) or getattr(c, "binds", False):
            return BoundV(o, c)
        if isinstance(c, StaticV):
            return c.func
        if isinstance(c, ClassMethV):
            return BoundV(o.cls, c.func)
        if isinstance(c, Builtin):
            return c
        return c

    def setattr(self, o, name, v):
        if isinstance(o, AbsVal):
            r = o.v_setattr(self, name, v)
            if r is not NotImplemented:
                return
        if isinstance(o, InstV):
            c = o.cls.lookup(name)
            if isinstance(c, PropV) and not c.cached:
                if c.setter is not None:
                    self.call(c.setter, [o, v], {})
                    return
                self.throw(AttributeError, name)
            if o.cls.readonly:
                self.throw(AttributeError, f"readonly {name}")
            o.attrs[name] = v
            return
        if isinstance(o, (ClassV, FuncV, ExcV)):
            o.attrs[name] = v
            return
        if isinstance(o, ModV):
            o.env.vars[name] = v
            return
        if isinstance(o, Term):
            self.note(f"write {o!r}.{name}")
            return
        raise Undecided(f"attribute assignment to {short(o)}")

    # ------------------------------------------------------------ calls

    def isinstance(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance(v, c) for c in cls)
        if isinstance(v, AbsVal):
            r = v.v_isinstance(self, cls)
            if r is not NotImplemented:
                return r
        if isinstance(cls, type):
            if isinstance(v, Term):
                if v.maybe_none and self.lit(Term("isnone", (v,), "bool")):
                    return cls is type(None)
                py = _KINDS.get(v.kind)
                if py is None:
                    return self.lit(Term("isinstance", (v, cls.__name__), "bool"))
                return issubclass(py, cls)
            if isinstance(v, ExcV):
                return exc_is(v.cls, cls)
            if isinstance(v, AbsVal):
                py = _KINDS.get(v.kind)
                if py is not None:
                    return issubclass(py, cls)
                return cls is object
            return isinstance(v, cls)
        if isinstance(cls, ClassV):
            if isinstance(v, InstV):
                return self.subclass(v.cls, cls)
            return isinstance(v, ExcV) and exc_is(v.cls, cls)
        if isinstance(cls, ExtV):
            if isinstance(v, ExcV):
                return exc_is(v.cls, cls)
            return self.lib.isinstance_ext(self, v, cls.name)
        if isinstance(cls, Term):
            return self.lit(Term("isinstance", (v, cls), "bool"))
        raise Undecided(f"isinstance of {short(cls)}")

    def subclass(self, c, target):
        return c is target or any(self.subclass(b, target) for b in c.bases if isinstance(b, ClassV))

    def call(self, f, args, kw):
        if isinstance(f, FuncV):
            h = self.hooks.get(f.qualname)
            if h is not None and not self.loading:
                r = h(self, args, kw)
                if r is not NotImplemented:
                    return r
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.obj, *args], kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, AbsVal):
            r = f.v_call(self, args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(f, ExtV):
            return self.lib.call(self, f.name, args, kw)
        if isinstance(f, MethV):
            return self.lib.method(self, f.obj, f.name, args, kw)
        if isinstance(f, type):
            return self.lib.call_type(self, f, args, kw)
        if isinstance(f, Term):
            return self.lib.call_term(self, f, args, kw)
        if isinstance(f, InstV):
            c = f.cls.lookup("__call__")
            if c is not MISSING:
                return self.call(BoundV(f, c), args, kw)
        if isinstance(f, (StaticV, ClassMethV)):
            return self.call(f.func, args, kw)
        if f is None or isinstance(f, (int, str, bytes, ListV, DictV)):
            self.throw(TypeError, "not callable")
        raise Undecided(f"call of {short(f)}")

    def instantiate(self, c, args, kw):
        h = self.hooks.get(c.qualname)
        if h is not None and not self.loading:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        if self.is_exc_class(c):
            e = ExcV(c, args)
            init = c.lookup("__init__")
            return e
        o = self.persist(InstV(c))
        if c.fields is not None and c.lookup("__init__") is MISSING:
            names = [k for k, _ in c.fields]
            if len(args) > len(names):
                self.throw(TypeError, "too many arguments")
            for k, v in zip(names, args):
                o.attrs[k] = v
            for k, v in kw.items():
                if k not in names or k in o.attrs:
                    self.throw(TypeError, f"argument {k}")
                o.attrs[k] = v
            for k, d in c.fields:
                if k not in o.attrs:
                    if d is MISSING:
                        self.throw(TypeError, f"missing argument {k}")
                    o.attrs[k] = d
            return o
        init = c.lookup("__init__")
        if init is not MISSING:
            self.call(BoundV(o, init), args, kw)
        elif args or kw:
            if any(not isinstance(b, ClassV) for b in c.bases):
                raise Undecided(f"instance of {c!r} with library bases")
            self.throw(TypeError, "arguments")
        return o

    def is_exc_class(self, c):
        return any(
            (isinstance(b, type) and issubclass(b, BaseException))
            or (isinstance(b, ExtV) and b.name in EXT_EXC_BASE)
            or (isinstance(b, ClassV) and self.is_exc_class(b))
            for b in c.bases
        )

    def call_func(self, f, args, kw):
        if len(self.callstack) > 150:
            raise Undecided("call depth")
        env = Env("function", f.env, f.module, f.info)
        env.func = f
        self.bind_args(f, env, args, kw)
        if not self.loading:
            self.functions_seen.add(f.qualname)
        n = f.node
        if isinstance(n, ast.Lambda):
            if f.info.is_gen:
                raise Undecided("generator lambda")
            saved = self.callstack
            self.callstack = [*saved, f.qualname]
            try:
                return self.ev(n.body, env)
            finally:
                self.callstack = saved
        if f.info.is_gen:
            return GenV(f, env)
        saved, loc = self.callstack, self.loc
        if not saved:
            self.entry = (f.module.file, n.lineno, f.qualname)
        self.callstack = [*saved, f.qualname]
        try:
            self.block(n.body, env)
        except ReturnSig as r:
            self.loc = loc
            return r.v
        finally:
            self.callstack = saved
        self.loc = loc
        return None

    def bind_args(self, f, env, args, kw):
        a = f.node.args
        pos = [*a.posonlyargs, *a.args]
        npos = len(pos)
        vars_ = env.vars
        kw = dict(kw)
        for p, v in zip(pos, args):
            vars_[p.arg] = v
        if len(args) > npos:
            if a.vararg is None:
                self.throw(TypeError, f"{f.qualname}: too many arguments")
            vars_[a.vararg.arg] = tuple(args[npos:])
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        posonly = {p.arg for p in a.posonlyargs}
        for p in [*a.args, *a.kwonlyargs]:
            if p.arg in kw:
                if p.arg in vars_:
                    self.throw(TypeError, f"{f.qualname}: multiple values of {p.arg}")
                vars_[p.arg] = kw.pop(p.arg)
        if kw:
            if a.kwarg is None:
                self.throw(TypeError, f"{f.qualname}: unexpected arguments {sorted(kw)}")
            vars_[a.kwarg.arg] = DictV(list(kw.items()))
        elif a.kwarg is not None:
            vars_[a.kwarg.arg] = DictV()
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vars_:
                j = i - (npos - nd)
                if j < 0:
                    self.throw(TypeError, f"{f.qualname}: missing argument {p.arg}")
                vars_[p.arg] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in vars_:
                if p.arg not in f.kwdefaults:
                    self.throw(TypeError, f"{f.qualname}: missing argument {p.arg}")
                vars_[p.arg] = f.kwdefaults[p.arg]


def v_exc_cache(eng, t):
    d = eng.path.data.setdefault("exc_terms", {})
    if t not in d:
        d[t] = ExcV(Exception, (t,))
    return d[t]


class V:
    def __init__(self, msg, loc, trace):
        self.msg, self.loc, self.trace = msg, loc, trace


class Result:
    def __init__(self):
        self.paths = self.complete = self.pruned = self.steps = 0
        self.undecided = []
        self.violations = []
        self.escaped = []
        self.truncated = None


_KINDS = {
    "int": int,
    "str": str,
    "bytes": bytes,
    "bool": bool,
    "list": list,
    "dict": dict,
    "set": set,
    "float": float,
    "range": range,
    "tuple": tuple,
    "NoneType": type(None),
}

_BIN = {
    "Add": lambda a, b: a + b,
    "Sub": lambda a, b: a - b,
    "Mult": lambda a, b: a * b,
    "Div": lambda a, b: a / b,
    "FloorDiv": lambda a, b: a // b,
    "Mod": lambda a, b: a % b,
    "Pow": lambda a, b: a**b,
    "LShift": lambda a, b: a << b,
    "RShift": lambda a, b: a >> b,
    "BitOr": lambda a, b: a | b,
    "BitAnd": lambda a, b: a & b,
    "BitXor": lambda a, b: a ^ b,
}
_DUNDER = {
    "Add": "__add__",
    "Sub": "__sub__",
    "Mult": "__mul__",
    "Div": "__truediv__",
    "FloorDiv": "__floordiv__",
    "Mod": "__mod__",
    "Pow": "__pow__",
    "LShift": "__lshift__",
    "RShift": "__rshift__",
    "BitOr": "__or__",
    "BitAnd": "__and__",
    "BitXor": "__xor__",
    "MatMult": "__matmul__",
}
_CMP = {
    "Eq": lambda a, b: a == b,
    "NotEq": lambda a, b: a != b,
    "Lt": lambda a, b: a < b,
    "LtE": lambda a, b: a <= b,
    "Gt": lambda a, b: a > b,
    "GtE": lambda a, b: a >= b,
}
_SYM = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}

"""Abstract machine: the value-shape interpreter of shapes.py extended with the
run-time structure of the package: coroutines, tasks, futures, generators,
context managers, exception classes, keyed containers.

A *scenario* builds abstract objects (symbolic user values, stubs for the parts
of the environment it abstracts) and evaluates a function of the package on
them.  Stubs stand for everything outside and choose nondeterministically
between their outcomes (value, error, cancellation, never), every combination
is enumerated.  Time is virtual; nothing of the package is executed by Python.
"""

import ast
import builtins
import os
import threading

from . import shapes
from .model import ClassInfo, Func, Module
from .shapes import (Bound, Clo, Dct, Env, Interp, Lin, Obj, Part, Raised, Seq, Splice, Stuck, T, _Brk, _Cont, _PRIM, _Ret,
                     _Slice, freeze, sym)

threading.stack_size(256 * 1024 * 1024)


class Halt(BaseException):
    """The scenario has seen enough (bounded loops)."""


class _Kill(BaseException):
    pass


class Deadlock(Exception):
    pass


class Val:
    """Machine value living by identity."""
    label = ""

    def frozen(self):
        return T("ref", type(self).__name__, self.label, id(self))

    def __repr__(self):
        return f"<{type(self).__name__} {self.label}>"


class Native(Val):
    def __init__(self, fn, label="native"):
        self.fn = fn
        self.label = label


# decorators that a scenario calls by themselves, or that do not change the outcome of a call
TRANSPARENT = {"implements", "buffered", "contextmanager", "asynccontextmanager", "staticmethod", "classmethod", "property", "abstractmethod", "wraps", "cached_property",
               "setter", "lru_cache", "cache", "overload", "binding", "classproperty", "no_lock", "extensible", "generator"}


class Stub(Val):
    """Abstract object of the environment: attributes and native methods."""

    def __init__(self, label, attrs=None, methods=None, kind=None, default=None):
        self.label = label
        self.attrs = dict(attrs or {})
        self.methods = dict(methods or {})
        self.kind = kind          # name(s) it is an instance of
        self.default = default    # default(it, name) -> value

    def frozen(self):
        return T("stub", self.label)


def queue():
    """an unbounded asyncio.Queue"""
    items = []

    def put(it, a, k):
        items.append(a[0])

    def get(it, a, k):
        def g():
            while not items:
                it.block(lambda: bool(items))
                it.raise_injected()
            return items.pop(0)
        return Coro(g, "queue.get")

    def get_nowait(it, a, k):
        if not items:
            it.raise_("asyncio.QueueEmpty", "empty")
        return items.pop(0)
    s = Stub("queue", {}, {"put_nowait": put, "put": lambda it, a, k: Coro(lambda: put(it, a, k), "queue.put"), "get": get, "get_nowait": get_nowait,
                           "empty": lambda it, a, k: not items, "qsize": lambda it, a, k: len(items)}, kind="Queue")
    s.items = items
    return s


class Coro(Val):
    def __init__(self, thunk, label):
        self.thunk, self.label = thunk, label
        self.state = "new"


class Fut(Val):
    def __init__(self, label="future"):
        self.label = label
        self.state = "pending"   # done | error | cancelled
        self.value = None
        self.callbacks = []

    @property
    def done(self):
        return self.state != "pending"


class Task(Fut):
    def __init__(self, coro, label):
        super().__init__(label)
        self.coro = coro
        self.fiber = None


class Event(Val):
    def __init__(self, label="event"):
        self.label = label
        self.flag = False


class Lock(Val):
    def __init__(self, label="lock", kind="asyncio"):
        self.label = label
        self.kind = kind
        self.count = 0
        self.free = 1           # permits left
        self.bound = None       # permits at most; None: a lock
        self.waiters = []


class GenObj(Val):
    """A generator: a fiber handing values over."""

    def __init__(self, label, body, is_async):
        self.label, self.body, self.is_async = label, body, is_async
        self.state = "new"
        self.fiber = None


_QUIET = {"isinstance", "issubclass", "len", "str", "repr", "int", "float", "bool", "type", "hasattr", "getattr", "tuple", "list", "set", "dict", "min", "max", "sum", "sorted", "id", "hash"}


def _effects(e):
    """Does consuming a generator expression call something that may have effects (so that it matters when it is consumed)?"""
    if any(g.is_async for g in e.generators):
        return False
    calls = False
    for p in [e.elt] + [c for g in e.generators for c in g.ifs] + [g.iter for g in e.generators[1:]]:
        for x in ast.walk(p):
            if isinstance(x, (ast.Await, ast.NamedExpr)):
                return False
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in _QUIET):
                calls = True
    return calls


class CtxMan(Val):
    """@contextmanager call."""

    def __init__(self, label, body, is_async):
        self.label, self.body, self.is_async = label, body, is_async


class ExtCls(Val):
    """External exception class."""
    _all = {}

    def __init__(self, name):
        self.name = self.label = name
        self.qual = name

    @classmethod
    def get(cls, name):
        if name not in cls._all:
            cls._all[name] = ExtCls(name)
        return cls._all[name]

    def frozen(self):
        return T("ext", self.name)


EXC_BASES = {
    "CancelledError": ["CancelledError", "BaseException"],
    "TimeoutError": ["TimeoutError", "OSError", "Exception", "BaseException"],
    "NoSuchProcess": ["NoSuchProcess", "Error", "Exception", "BaseException"],
    "TimeoutExpired": ["TimeoutExpired", "Error", "Exception", "BaseException"],
    "IncompleteReadError": ["IncompleteReadError", "EOFError", "Exception", "BaseException"],
    "PicklingError": ["PicklingError", "PickleError", "Exception", "BaseException"],
    "QueueEmpty": ["QueueEmpty", "Exception", "BaseException"],
    "InvalidStateError": ["InvalidStateError", "Error", "Exception", "BaseException"],
}


class Exc(Val):
    """Exception instance of an external class."""

    def __init__(self, name, args=()):
        self.name, self.args = name, list(args)
        self.label = name
        self.attrs = {}

    def frozen(self):
        return T(self.name, *[freeze(a) for a in self.args])


def exc_names(prog, v):
    """Names of the classes an exception value belongs to."""
    if isinstance(v, Exc):
        return _ext_names(v.name)
    if isinstance(v, T) and isinstance(v.op, str):
        if v.op in ("call",) and isinstance(v.a[0], T) and v.a[0].op == "ext":
            return _ext_names(v.a[0].a[0].split(".")[-1])
        return _ext_names(v.op)
    if isinstance(v, Obj) and isinstance(v.cls, ClassInfo):
        return cls_names(prog, v.cls)
    if isinstance(v, Obj):
        return [getattr(v.cls, "name", "?"), "Exception", "BaseException"]
    return ["Exception", "BaseException"]


def cls_names(prog, c):
    if isinstance(c, ClassInfo):
        out = [x.name for x in prog.mro(c)]
        for b in prog.class_ext_bases(c):
            out += _ext_names(b.split(".")[-1])
        return out
    if isinstance(c, ExtCls):
        return _ext_names(c.name)
    if isinstance(c, tuple):
        return _ext_names(c[1].split(".")[-1])
    return []


def _ext_names(n):
    b = getattr(builtins, n, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        if b is OSError or b is IOError:
            return ["OSError", "IOError", "EnvironmentError", "Exception", "BaseException"]
        return [k.__name__ for k in b.__mro__] + (["IOError"] if issubclass(b, OSError) else [])
    if isinstance(b, type):
        return [k.__name__ for k in b.__mro__]
    if n in EXC_BASES:
        return EXC_BASES[n]
    return [n, "Exception", "BaseException"]


def is_exc_class(n):
    n = n.split(".")[-1]
    b = getattr(builtins, n, None)
    return isinstance(b, type) and issubclass(b, BaseException) or n in EXC_BASES


class K:
    """Dictionary key of a value that is not a constant."""
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __eq__(self, o):
        return isinstance(o, K) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"<{self.v!r}>"


def unkey(k):
    return k.v if isinstance(k, K) else k


class Fiber:
    def __init__(self, m, thunk, label):
        self.m, self.thunk, self.label = m, thunk, label
        self.sem = threading.Semaphore(0)
        self.state = "new"
        self.result = None
        self.error = None
        self.inject = None       # exception raised at the next resumption
        self.wait = None         # condition it is blocked on
        self.wake = None         # virtual time it wakes up at
        self.back = None         # semaphore of the resumer
        self.sent = None
        self.depth = 0
        self.thread = None
        self.task = None

    def _main(self):
        self.sem.acquire()
        try:
            if self.m.killed:
                return
            self.result = self.thunk()
        except BaseException as e:  # noqa: B902
            self.error = e
        finally:
            self.state = "done"
            self.back.release()

    def resume(self):
        """Run the fiber until it suspends or ends."""
        m = self.m
        prev, pdepth = m.fiber, m.depth
        self.back = threading.Semaphore(0)
        m.fiber, m.depth = self, self.depth
        if self.thread is None:
            self.thread = threading.Thread(target=self._main, daemon=True)
            self.thread.start()
            m.fibers.append(self)
        self.state = "running"
        self.sem.release()
        self.back.acquire()
        self.depth = m.depth
        m.fiber, m.depth = prev, pdepth

    def suspend(self):
        """Called in the fiber's own thread."""
        self.state = "suspended"
        self.back.release()
        self.sem.acquire()
        if self.m.killed:
            raise _Kill()
        self.state = "running"
        if self.inject is not None:
            e, self.inject = self.inject, None
            raise e


class Machine(Interp):
    def __init__(self, prog, decisions=(), rewrites=None, opaque=(), limit=200000):
        super().__init__(prog, decisions, rewrites, opaque, limit)
        self.wrapped = {}
        self.exts = {}          # values of names of other packages
        self.exact_try = True
        self.fiber = None
        self.fibers = []
        self.killed = False
        self.ready = []
        self.now = 0.0
        self.clsattrs = {}
        self.clskeep = {}
        self.stubs = {}          # name (qual suffix or ext) -> fn(it, args, kw)
        self.events = []
        self.globals_set = set()
        self.exits = []          # os._exit etc.
        self.max_time = 1000.0
        self.coros = []
        self.task_errors = []
        self.tasks = []
        self.names = {}

    # -- events
    def ev_(self, *a):
        self.events.append(a)

    def fault(self, key, *outcomes):
        """Nondeterministic outcome of the environment."""
        return outcomes[self.choose(("fault", key, len(self.taken)), len(outcomes))]

    def raise_(self, name, *args):
        raise Raised(Exc(name, args), name)

    # -- fibers and scheduling
    def spawn(self, coro, label):
        t = Task(coro, label)

        def body():
            try:
                v = self.await_(coro)
            except Raised as r:
                v = self.excval(r.value)
                if "CancelledError" in exc_names(self.prog, v):
                    self.finish(t, "cancelled", v)
                else:
                    self.finish(t, "error", v)
                return
            self.finish(t, "done", v)
        t.fiber = Fiber(self, body, label)
        t.fiber.task = t
        self.ready.append(t.fiber)
        self.tasks.append(t)
        return t

    def finish(self, f, state, value):
        if f.done:
            return
        f.state, f.value = state, value
        for cb in f.callbacks:
            try:
                self.call(cb, [f], [])
            except Raised:
                pass  # the event loop logs the error of a callback

    def fut_cancel(self, f):
        if isinstance(f, Task):
            return self.task_cancel(f)
        kids = [c for c in getattr(f, "children", ()) if not c.done]
        if kids:
            f.cancel_requested = True
            for c in kids:
                self.task_cancel(c)
        else:
            self.finish(f, "cancelled", Exc("CancelledError"))
        return True

    def task_cancel(self, t):
        if t.done:
            return False
        if not isinstance(t, Task):
            return self.fut_cancel(t)
        fb = t.fiber
        if fb.state == "new":
            if isinstance(t.coro, Coro):
                t.coro.state = "cancelled"
            self.finish(t, "cancelled", Exc("CancelledError"))
            fb.state = "done"
            if fb in self.ready:
                self.ready.remove(fb)
            return True
        waiting = getattr(fb, "awaiting", None)
        if isinstance(waiting, Fut) and not waiting.done and not getattr(fb, "shielded", False):
            # what it waits for is cancelled, the waiter hears of it when that ends
            return self.fut_cancel(waiting)
        fb.inject = Raised(Exc("CancelledError"), "cancelled")
        fb.wait = fb.wake = None
        if fb not in self.ready and fb is not self.fiber:
            self.ready.append(fb)
        return True

    def block(self, cond, s=None, wake=None, awaiting=None, shielded=False):  # noqa: D102 (statement blocks as well)
        if isinstance(cond, list):
            return super().block(cond, s)
        fb = self.fiber
        first = True
        while first or not cond():
            if not first and wake is not None and self.now >= wake:
                return False
            first = False
            if cond() and wake is None:
                break
            fb.wait, fb.wake, fb.awaiting, fb.shielded = cond, wake, awaiting, shielded
            stack = self.base_switch(fb)
            fb.wait = fb.wake = fb.awaiting = None
        return True

    def base_switch(self, fb):
        """Suspend the current task's fiber chain up to the scheduler."""
        top = fb
        # a generator fiber that awaits suspends its consumer too: the request travels up
        if getattr(fb, "consumer", None) is not None:
            fb.relay = True
            fb.suspend()
            return
        top.suspend()

    def pause(self):
        """Let every other ready task run once (await sleep(0))."""
        fb = self.fiber
        self.ready.append(fb)
        fb.wait = None
        self.base_switch(fb)

    def run(self, thunk):
        root = Fiber(self, thunk, "root")
        self.ready.append(root)
        blocked = []
        try:
            while root.state != "done":
                if self.ready:
                    fb = self.ready.pop(0)
                    if fb.state == "done":
                        continue
                    fb.resume()
                    if fb.state == "suspended" and fb not in self.ready and fb not in blocked:
                        blocked.append(fb)
                    if fb.state == "done" and fb.error is not None and fb is not root:
                        raise fb.error
                    for b in [b for b in blocked if b.state == "suspended" and b not in self.ready and (b.inject is not None or b.wait is not None and b.wait())]:
                        blocked.remove(b)
                        self.ready.append(b)
                    continue
                rd = [b for b in blocked if b.inject is not None or b.wait is not None and b.wait()]
                if not rd:
                    timed = sorted([b for b in blocked if b.wake is not None], key=lambda b: b.wake)
                    if not timed or timed[0].wake > self.max_time:
                        raise Deadlock(root.label)
                    self.now = max(self.now, timed[0].wake)
                    rd = [timed[0]]
                for b in rd:
                    blocked.remove(b)
                    self.ready.append(b)
            if root.error is not None:
                raise root.error
            return root.result
        finally:
            self.kill()

    def drain(self):
        """Let the other tasks run until they block or end (inside a scenario)."""
        idle = 0
        for _ in range(80):
            idle = 0 if self.ready else idle + 1
            if idle > 2:
                break
            self.pause()

    def kill(self):
        self.killed = True
        for f in self.fibers:
            if f.state == "suspended":
                f.back = threading.Semaphore(0)
                f.sem.release()
                f.back.acquire(timeout=5)

    # -- awaiting
    def await_(self, v):
        if isinstance(v, Coro):
            if v.state == "cancelled":
                raise Raised(Exc("CancelledError"), "cancelled")
            if v.state != "new":
                raise Raised(Exc("RuntimeError", ["cannot reuse already awaited coroutine"]), "await")
            v.state = "run"
            r = v.thunk()
            v.state = "done"
            return r
        if isinstance(v, Fut):
            sh = getattr(v, "shield_of", None)
            tgt = sh or v
            if not tgt.done:
                self.block(lambda: tgt.done, awaiting=tgt, shielded=sh is not None)
            elif self.fiber.inject is not None:
                e, self.fiber.inject = self.fiber.inject, None
                raise e
            return self.fut_result(tgt)
        if isinstance(v, Obj):
            m = self.prog.method(v.cls, "__await__", required=False)
            if m is not None:
                return self.call(Bound(m, v, v.cls), [], [])
        if v is None or isinstance(v, (int, str, bytes, Seq, Dct)):
            raise Raised(Exc("TypeError", [f"object {v!r} can't be used in 'await' expression"]), "await")
        return v

    def fut_result(self, f):
        if f.state == "done":
            return f.value
        if f.state == "pending":
            raise Raised(Exc("InvalidStateError", ["Result is not ready."]))
        raise Raised(f.value, "future")

    def e_Await(self, e, env):
        return self.await_(self.ev(e.value, env))

    def excval(self, v):
        if isinstance(v, T) and isinstance(v.op, str) and is_exc_class(v.op):
            return Exc(v.op, v.a)
        if isinstance(v, T) and v.op == "call" and isinstance(v.a[0], T) and v.a[0].op == "ext":
            return Exc(v.a[0].a[0].split(".")[-1], v.a[1])
        return v

    # -- functions
    def call_func(self, f, args, kw, cls=None, env=None):
        key = self.stub_for(f)
        if key is not None:
            return key(self, args, kw)
        decos = f.deco_names() if not f.is_lambda else []
        if decos and f.parent is None:
            w = self.decorated(f)
            if w is not None:
                return self.call(w, args, kw)
        return self.call_plain(f, args, kw, cls, env, decos)

    def decorated(self, f):
        """the function a decorator of the repository makes of f, or None"""
        if f in self.wrapped:
            return self.wrapped[f]
        v = None
        for d, n in zip(reversed(f.decorators), reversed(f.deco_names() if len(f.deco_names()) == len(f.decorators) else [])):
            if n in TRANSPARENT:
                continue
            r = self.prog.resolve_expr(f.module, d.func if isinstance(d, ast.Call) else d)
            if not hasattr(r, "is_lambda"):
                continue
            if v is None:
                v = Native(lambda it, a, k: self.call_plain(f, a, k, f.cls, None, []), f.name)
                v.attrs = {"__name__": f.name, "__qualname__": f.short, "__doc__": None, "__module__": f.module.name}
            dv = r
            if isinstance(d, ast.Call):
                dv = self.call(r, [self.ev(x, Env(None, {}, None, None, f.module)) for x in d.args], [(x.arg, self.ev(x.value, Env(None, {}, None, None, f.module))) for x in d.keywords])
            v = self.call(dv, [v], [])
        self.wrapped[f] = v
        return v

    def call_plain(self, f, args, kw, cls, env, decos):
        if f.is_generator:
            def body():
                return Interp.call_func(self, _NoGen(f), args, kw, cls, env)
            if "contextmanager" in decos or "asynccontextmanager" in decos:
                return CtxMan(f.qual, body, "asynccontextmanager" in decos)
            return GenObj(f.qual, body, f.is_async)
        if f.is_async:
            c = Coro(lambda: Interp.call_func(self, f, args, kw, cls, env), f.qual)
            self.coros.append(c)
            return c
        if "lru_cache" in decos or "cache" in decos:
            try:
                key = (f, id(env), tuple(self.key(x) for x in args), tuple(sorted((n, self.key(x)) for n, x in kw)))
            except (Stuck, Raised, TypeError):
                return Interp.call_func(self, f, args, kw, cls, env)
            memo = self.__dict__.setdefault("_memo", {})
            if key not in memo:
                memo[key] = Interp.call_func(self, f, args, kw, cls, env)
            return memo[key]
        return Interp.call_func(self, f, args, kw, cls, env)

    def stub_for(self, f):
        if not self.stubs:
            return None
        q = f.qual
        for n, fn in self.stubs.items():
            if q == n or q.endswith("." + n):
                return fn
        return None

    def call(self, f, args, kw, site=None):
        self.tick()
        if any(n is None and isinstance(v, Dct) and v.base is None and all(isinstance(unkey(q), str) for q in v.items) for n, v in kw):
            kw = [p for n, v in kw for p in ([(unkey(q), x) for q, x in v.items.items()] if n is None and isinstance(v, Dct) and v.base is None else [(n, v)])]
        if isinstance(f, Native):
            return f.fn(self, list(args), list(kw))
        if isinstance(f, (Bound, Func, Clo)):
            fn = f if isinstance(f, Func) else f.func
            k = self.stub_for(fn)
            if k is not None:
                a = list(args)
                if isinstance(f, Bound) and not fn.is_static:
                    a = [f.self] + a
                return k(self, a, list(kw))
        if isinstance(f, ClassInfo):
            for n, fn in self.stubs.items():
                if f.qual == n or f.qual.endswith("." + n):
                    return fn(self, list(args), list(kw))
        if isinstance(f, tuple) and f[0] in ("ext", "builtin"):
            fn = self.stubs.get(f[1])
            if fn is None:
                last = f[1].split(".")[-1]
                fn = self.stubs.get("*." + last)
            if fn is not None:
                return fn(self, list(args), list(kw))
            r = self.ext(f[1], list(args), list(kw))
            if r is not NotImplemented:
                return r
        if isinstance(f, ExtCls):
            return Exc(f.name, args)
        if isinstance(f, Stub):
            c = f.methods.get("__call__")
            if c is not None:
                return c(self, list(args), list(kw))
            self.ev_("call", f.label, list(args), list(kw))
            return T("call", f.frozen(), tuple(self.fz(a) for a in args), tuple((k, self.fz(v)) for k, v in kw))
        if isinstance(f, Obj):
            m = self.prog.method(f.cls, "__call__", required=False)
            if m is not None:
                return self.call(Bound(m, f, f.cls), args, kw, site)
        if isinstance(f, tuple) and f[0] == "meth":
            r = self.seqmeth(f[1], f[2], list(args), list(kw))
            if r is not NotImplemented:
                return r
        if isinstance(f, Part):
            return self.call(f.func, f.args + list(args), f.kw + list(kw), site)
        if f == ("ext", "functools.partial") and args:
            return Part(args[0], args[1:], kw)
        return super().call(f, args, kw, site)

    def fz(self, v):
        try:
            return freeze(v)
        except Stuck:
            return T("ref", id(v))

    def construct(self, cls, args, kw):
        names = cls_names(self.prog, cls)
        o = Interp.construct(self, cls, args, kw)
        if isinstance(o, Obj) and "BaseException" in names and "args" not in o.attrs:
            o.attrs["args"] = Seq("tuple", list(args))
            for k in [k for k in o.attrs if k.startswith("arg") and k[3:].isdigit()]:
                del o.attrs[k]
        if isinstance(o, Obj) and self.record_class(cls):
            for c in reversed(self.prog.mro(cls)):
                for st in c.node.body:
                    if not (isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)) or st.target.id in o.attrs or "ClassVar" in ast.unparse(st.annotation):
                        continue
                    env = Env(None, {}, None, None, c.module)
                    if st.value is None:
                        raise Raised(Exc("TypeError", [cls.name, st.target.id]), "missing argument")
                    if isinstance(st.value, ast.Call) and ast.unparse(st.value.func).split(".")[-1] == "field":
                        ks = {q.arg: q.value for q in st.value.keywords}
                        if "default_factory" in ks:
                            o.attrs[st.target.id] = self.call(self.ev(ks["default_factory"], env), [], [])
                        elif "default" in ks:
                            o.attrs[st.target.id] = self.ev(ks["default"], env)
                        continue
                    o.attrs[st.target.id] = self.ev(st.value, env)
            m = self.prog.method(cls, "__post_init__", required=False)
            if m is not None:
                self.call_func(m, [o], [], cls)
        return o

    def base_init(self, me, args):
        if "BaseException" in cls_names(self.prog, me.cls):
            me.attrs["args"] = Seq("tuple", list(args))

    def named_tuple(self, o):
        return any(b.endswith("NamedTuple") for b in self.prog.class_ext_bases(o.cls))

    def record_class(self, cls):
        """a dataclass or a NamedTuple without an __init__ of its own"""
        if self.prog.method(cls, "__init__", required=False) is not None:
            return False
        return any("dataclass" in ast.unparse(d) for c in self.prog.mro(cls) for d in c.node.decorator_list) or any(b.endswith("NamedTuple") for b in self.prog.class_ext_bases(cls))

    def opaque_call(self, f, args, kw):
        t = T("call", f, tuple(T("splice", self.fz(x.t)) if isinstance(x, Splice) else self.fz(x) for x in args), tuple((k, self.fz(v)) for k, v in kw))
        self.log.append(t)
        return t

    # -- external library model
    def ext(self, n, a, kw):
        k = dict((x, y) for x, y in kw if x is not None)
        last = n.split(".")[-1]
        if is_exc_class(n):
            return Exc(last, a)
        if n == "urllib.parse.urlparse" and a and isinstance(a[0], str):
            from urllib.parse import urlparse
            u = urlparse(a[0])
            return Stub("url", {x: getattr(u, x) for x in ("scheme", "netloc", "path", "params", "query", "fragment", "hostname", "port")})
        if n.startswith("asyncio."):
            r = self.x_asyncio(last, a, k)
            if r is not NotImplemented:
                return r
        if n in ("threading.Lock", "threading.RLock"):
            return Lock("thread lock", "thread")
        if n in ("contextlib.suppress",):
            return Stub("suppress", {"classes": a}, kind="suppress")
        if n in ("contextlib.nullcontext",):
            v = a[0] if a else None
            return Stub("nullcontext", methods={"__enter__": lambda it, x, y: v, "__exit__": lambda it, x, y: None})
        if n in ("functools.lru_cache", "functools.cache"):
            if len(a) != 1 or not isinstance(a[0], (Func, Clo, Bound, Native)):
                return Native(lambda it, x, y: it.ext(n, x[:1], []), "lru_cache")
            fn, memo = a[0], {}

            def memoized(it, x, y):
                key = (tuple(it.key(q) for q in x), tuple(sorted((p, it.key(q)) for p, q in y)))
                if key not in memo:
                    memo[key] = it.call(fn, x, y)
                return memo[key]
            return Native(memoized, "memoized")
        if n == "functools.wraps":
            return Native(lambda it, x, y: x[0], "wraps")
        if n in ("weakref.ref",):
            o = a[0]
            return Native(lambda it, x, y: o, "weakref")
        if n in ("copy.copy",):
            return self.copy(a[0])
        if n == "copy.deepcopy":
            return self.deepcopy(a[0])
        if n in ("weakref.WeakValueDictionary", "weakref.WeakKeyDictionary"):
            return Dct()
        if n in ("collections.OrderedDict", "collections.defaultdict"):
            init = a if last == "OrderedDict" else a[1:]
            d = Dct()
            if init and isinstance(init[0], Dct):
                d = self.dcopy(init[0])
            elif init:
                for p in self.iterate(init[0]):
                    self.setitem(d, self.index(p, 0), self.index(p, 1))
            for x, y in kw:
                if x is not None:
                    d.items[x] = y
            if last == "OrderedDict":
                d.ordered = True
            else:
                d.factory = a[0] if a else None
            return d
        if n == "collections.deque":
            q = Seq("list", list(self.iterate(a[0])) if a else [])
            q.deque = True
            m = k.get("maxlen", a[1] if len(a) > 1 else None)
            if m is not None:
                raise Stuck("a bounded deque")
            return q
        if n in ("asyncio.TaskGroup", "asyncio.timeout", "asyncio.timeout_at", "asyncio.Runner", "asyncio.Barrier"):
            raise Stuck(n)
        if n in ("contextlib.ExitStack", "contextlib.AsyncExitStack"):
            return self.exit_stack()
        if n == "functools.reduce":
            xs = list(self.iterate(a[1])) if not isinstance(a[1], T) else None
            if xs is not None and (xs or len(a) > 2):
                r = a[2] if len(a) > 2 else xs.pop(0)
                for x in xs:
                    r = self.call(a[0], [r, x], [])
                return r
        if n in ("operator.itemgetter", "operator.attrgetter", "operator.methodcaller") and a:
            if last == "itemgetter":
                one = self.index
            elif last == "attrgetter":
                def one(o, name):
                    for x in name.split("."):
                        o = self.attr(o, x)
                    return o
            else:
                return Native(lambda it, x, y: it.call(it.attr(x[0], a[0]), a[1:], kw), last)
            return Native(lambda it, x, y: one(x[0], a[0]) if len(a) == 1 else Seq("tuple", [one(x[0], z) for z in a]), last)
        if n == "itertools.chain.from_iterable" and not isinstance(a[0], T):
            return Seq("list", [x for y in self.iterate(a[0]) for x in self.iterate(y)])
        if n == "itertools.islice" and not isinstance(a[0], T) and all(x is None or isinstance(x, int) for x in a[1:]):
            import itertools
            return self.seq_gen(list(itertools.islice(self.iterate(a[0]), *a[1:])))
        if n in ("os.path.join", "os.path.basename", "os.path.dirname", "os.path.splitext") and a and all(isinstance(x, str) for x in a):
            r = getattr(os.path, last)(*a)
            return Seq("tuple", list(r)) if isinstance(r, tuple) else r
        if n == "dataclasses.replace" and isinstance(a[0], Obj):
            d = self.copy(a[0])
            for x, y in kw:
                self.setattr(d, x, y)
            return d
        if n in ("dict.fromkeys", "collections.OrderedDict.fromkeys") and not isinstance(a[0], T):
            d = Dct()
            for x in self.iterate(a[0]):
                self.setitem(d, x, a[1] if len(a) > 1 else None)
            return d
        if n in ("inspect.isawaitable", "asyncio.iscoroutine", "inspect.iscoroutine"):
            x = a[0]
            if isinstance(x, (Coro,)) or isinstance(x, Fut) and last == "isawaitable":
                return True
            if isinstance(x, (_PRIM, Seq, Dct, Fut, Exc, ClassInfo, GenObj)):
                return False
            if isinstance(x, Stub):
                return x.kind == "awaitable"
            if isinstance(x, T):
                return False if x.op == "sym" else NotImplemented
            if isinstance(x, Obj):
                return self.prog.method(x.cls, "__await__", required=False) is not None
        if n in ("inspect.iscoroutinefunction", "asyncio.iscoroutinefunction"):
            x = a[0]
            if isinstance(x, (Bound, Clo)):
                return x.func.is_async and not x.func.is_generator
            if isinstance(x, Func):
                return x.is_async and not x.is_generator
            if isinstance(x, Native):
                return getattr(x, "is_async", False)
        if n in ("inspect.isasyncgen",):
            return isinstance(a[0], GenObj) and a[0].is_async
        if n in ("inspect.isgenerator",):
            return isinstance(a[0], GenObj) and not a[0].is_async
        if n == "itertools.count":
            g = GenObj("count", None, False)
            g.count = a[0] if a else 0
            g.state = "count"
            return g
        if n == "itertools.repeat" and len(a) == 1:
            g = GenObj("repeat", None, False)
            g.value = a[0]
            g.state = "repeat"
            return g
        if n == "itertools.chain":
            return Seq("list", [x for y in a for x in self.iterate(y)])
        if n == "sys.exc_info":
            e = getattr(self, "cur_exc", None)
            e = e[-1] if e else None
            if e is None:
                return Seq("tuple", [None, None, None])
            return Seq("tuple", [self.typeof(e), e, T("tb", self.fz(e))])
        if n in ("object.__getattribute__",) and len(a) == 2 and isinstance(a[1], str):
            return self.attr_plain(a[0], a[1])
        if n == "os._exit":
            self.exits.append(("os._exit",) + tuple(a))
            raise Halt("os._exit")
        if "." not in n:
            return self.x_builtin(n, a, k, kw)
        return NotImplemented

    def x_asyncio(self, n, a, k):
        if n in ("create_task", "ensure_future"):
            if isinstance(a[0], Fut):
                if n == "create_task":
                    raise Raised(Exc("TypeError", ["a coroutine was expected"]), "create_task")
                return a[0]
            return self.spawn(a[0], getattr(a[0], "label", "task"))
        if n in ("get_running_loop", "get_event_loop", "new_event_loop"):
            return self.loop()
        if n == "sleep":
            d = a[0] if a else k.get("delay", 0)
            res = a[1] if len(a) > 1 else None

            def slp():
                if isinstance(d, (int, float)) and d > 0:
                    w = self.now + d
                    self.block(lambda: False, wake=w)
                else:
                    self.pause()
                self.raise_injected()
                return res
            return Coro(slp, "sleep")
        if n == "Event":
            return Event()
        if n == "Lock":
            return Lock()
        if n in ("Semaphore", "BoundedSemaphore"):
            v = a[0] if a else k.get("value", 1)
            lk = Lock("semaphore")
            if not isinstance(v, int):
                raise Stuck("semaphore of an unknown size")
            lk.free, lk.bound = int(v), (int(v) if n == "BoundedSemaphore" else 1 << 30)
            return lk
        if n == "Queue":
            return queue()
        if n == "Future":
            return Fut()
        if n == "gather":
            aws = [x for y in a for x in ([y] if not isinstance(y, Splice) else self.stuck("gather"))]
            re = k.get("return_exceptions", False)
            ts = [x if isinstance(x, Fut) else self.spawn(x, getattr(x, "label", "task")) for x in aws]
            out = Fut("gather")
            out.children = ts

            def cb(it, x, y):
                if out.done:
                    return
                f = x[0]
                if f.state != "done" and not re:
                    self.finish(out, f.state, f.value)
                elif all(t.done for t in ts) and getattr(out, "cancel_requested", False):
                    self.finish(out, "cancelled", Exc("CancelledError"))
                elif all(t.done for t in ts):
                    self.finish(out, "done", Seq("list", [t.value for t in ts]))
            for t in ts:
                if t.done:
                    continue
                t.callbacks.append(Native(cb))
            if not ts:
                self.finish(out, "done", Seq("list", []))
            for t in ts:
                if t.done:
                    cb(self, [t], [])
            return out
        if n == "wait":
            ts = list(self.iterate(a[0]))
            rw = k.get("return_when", "ALL_COMPLETED")
            first = "FIRST" in repr(rw)
            firstexc = "FIRST_EXC" in repr(rw)
            to = k.get("timeout", a[1] if len(a) > 1 else None)
            if any(isinstance(t, Coro) for t in ts):
                raise Raised(Exc("TypeError", ["Passing coroutines is forbidden, use tasks explicitly."]))
            if not ts:
                raise Raised(Exc("ValueError", ["Set of Tasks/Futures is empty."]))

            def wt():
                def cond():
                    if firstexc:
                        return any(t.state == "error" for t in ts) or all(t.done for t in ts)
                    return any(t.done for t in ts) if first else all(t.done for t in ts)
                if not cond():
                    self.block(cond, wake=self.now + to if isinstance(to, (int, float)) else None, awaiting=None)
                self.raise_injected()
                return Seq("tuple", [Seq("set", [t for t in reversed(ts) if t.done]), Seq("set", [t for t in reversed(ts) if not t.done])])  # the order of a set is arbitrary
            return Coro(wt, "wait")
        if n == "as_completed" and not isinstance(a[0], T) and "timeout" not in k and len(a) == 1:
            ts = [x if isinstance(x, Fut) else self.spawn(x, getattr(x, "label", "task")) for x in self.iterate(a[0])]
            left = list(ts)

            def nxt():
                def run():
                    if not any(t.done for t in left):
                        self.block(lambda: any(t.done for t in left))
                    t = next(t for t in left if t.done)
                    left.remove(t)
                    return self.fut_result(t)
                return Coro(run, "as_completed")
            return self.seq_gen([nxt() for _ in ts])
        if n == "wait_for":
            to = k.get("timeout", a[1] if len(a) > 1 else None)

            def wf():
                t = a[0] if isinstance(a[0], Fut) else self.spawn(a[0], getattr(a[0], "label", "task"))
                try:
                    if not t.done:
                        self.block(lambda: t.done, wake=self.now + to if isinstance(to, (int, float)) else None, awaiting=t)
                except Raised:
                    self.task_cancel(t)
                    raise
                if not t.done:
                    self.task_cancel(t)
                    if not t.done:
                        self.block(lambda: t.done, wake=self.now + 100)
                    raise Raised(Exc("TimeoutError"), "wait_for")
                return self.fut_result(t)
            return Coro(wf, "wait_for")
        if n == "shield":
            t = a[0] if isinstance(a[0], Fut) else self.spawn(a[0], "shielded")
            f = Fut("shield")
            f.shield_of = t
            return f
        if n in ("to_thread",):
            return Coro(lambda: self.call(a[0], a[1:], list(k.items())), "to_thread")
        if n == "current_task":
            fb = self.fiber
            while fb is not None and fb.task is None and getattr(fb, "consumer", None) is not None:
                fb = fb.consumer
            if fb is not None and fb.task is None:
                fb.task = Task(None, "root task")
                fb.task.fiber = fb
            return fb.task if fb is not None else None
        if n == "run_coroutine_threadsafe":
            return self.spawn(a[0], "threadsafe")
        if n == "iscoroutine":
            return isinstance(a[0], Coro)
        return NotImplemented

    def stuck(self, m):
        raise Stuck(m)

    def raise_injected(self):
        fb = self.fiber
        if fb is not None and fb.inject is not None:
            e, fb.inject = fb.inject, None
            raise e

    def loop(self):
        if not hasattr(self, "_loop"):
            self._loop = Stub("loop", methods={
                "create_future": lambda it, a, k: Fut(),
                "create_task": lambda it, a, k: it.spawn(a[0], getattr(a[0], "label", "task")),
                "run_in_executor": lambda it, a, k: Coro(lambda: it.call(a[1], a[2:], []), "executor"),
                "time": lambda it, a, k: it.now,
                "call_soon": lambda it, a, k: it.later(0, a[0], a[1:]),
                "call_soon_threadsafe": lambda it, a, k: it.later(0, a[0], a[1:]),
                "call_later": lambda it, a, k: it.later(a[0], a[1], a[2:]),
                "is_running": lambda it, a, k: True,
            })
        return self._loop

    def later(self, delay, fn, args):
        if not isinstance(delay, (int, float)):
            raise Stuck("call_later with an unknown delay")
        off = []

        def run():
            if delay > 0:
                w = self.now + delay
                self.block(lambda: bool(off), wake=w)
            if not off:
                try:
                    self.call(fn, list(args), [])
                except Raised:
                    pass  # the event loop logs the error of a callback
        self.spawn(Coro(run, "callback"), "callback")
        return Stub("handle", methods={"cancel": lambda it, a, k: off.append(1), "cancelled": lambda it, a, k: bool(off)})

    def x_builtin(self, n, a, k, kw):
        if n == "hash" and len(a) == 1:
            return T("hash", self.fz(a[0]))
        if n == "id" and len(a) == 1:
            return T("id", self.fz(a[0]) if isinstance(a[0], (T, Obj)) is False else T("ref", id(a[0])))
        if n == "type" and len(a) == 1:
            return self.typeof(a[0])
        if n == "type" and len(a) == 3 and "type of three" in self.stubs:
            return self.stubs["type of three"](self, a, k)
        if n == "isinstance":
            cs = self.flatcls(a[1])
            r = self.isinst(a[0], cs)
            return NotImplemented if r is None else r
        if n == "issubclass":
            cs = self.flatcls(a[1])
            ns = cls_names(self.prog, a[0])
            if ns:
                return any(self.clsname(c) in ns for c in cs)
        if n == "bool":
            return self.truth(a[0]) if a else False
        if n in ("divmod", "round", "pow", "chr", "ord", "hex", "oct", "bin") and all(isinstance(x, _PRIM) for x in a):
            r = getattr(builtins, n)(*a)
            return Seq("tuple", list(r)) if isinstance(r, tuple) else r
        if n == "bytes" and len(a) == 1 and isinstance(a[0], Seq) and a[0].kind in ("list", "tuple") and all(isinstance(x, int) for x in a[0].parts):
            return bytes(a[0].parts)
        if n == "callable":
            x = a[0]
            if isinstance(x, (Bound, Func, Clo, Native, Part, ClassInfo)) or isinstance(x, tuple) and x[0] in ("meth", "builtin"):
                return True
            if isinstance(x, _PRIM) or isinstance(x, (Seq, Dct, Exc)):
                return False
            if isinstance(x, Stub):
                return "__call__" in x.methods
            if isinstance(x, Obj):
                return self.prog.method(x.cls, "__call__", required=False) is not None
        if n == "hasattr" and isinstance(a[1], str):
            if isinstance(a[0], tuple) and a[0][:1] == ("ext",) and f"{a[0][1]}.{a[1]}" in self.exts:
                return self.exts[f"{a[0][1]}.{a[1]}"] is not None
            if isinstance(a[0], (Obj, Stub, Exc, Fut, Coro, Native, Bound, Func, Clo, ClassInfo, GenObj)):
                try:
                    self.attr(a[0], a[1])
                    return True
                except Raised:
                    return False
            if isinstance(a[0], (_PRIM, Seq, Dct)):
                t = {Seq: {"list": list, "tuple": tuple, "set": set}.get(getattr(a[0], "kind", ""), list), Dct: dict}.get(type(a[0]), type(a[0]))
                return hasattr(t, a[1])
        if n == "set" or n == "frozenset":
            s = Seq("set", [])
            for x in (self.iterate(a[0]) if a else []):
                self.set_add(s, x)
            return s
        if n in ("list", "tuple") and a and not (isinstance(a[0], Seq) and a[0].kind != "set" and getattr(a[0], "at", None) is None) and not isinstance(a[0], T):
            return Seq(n, list(self.iterate(a[0])))
        if n == "sorted":
            xs = list(self.iterate(a[0]))
            keyf = k.get("key")
            ks = [self.call(keyf, [x], []) if keyf is not None else x for x in xs]
            if all(isinstance(x, (int, float, str, bytes)) for x in ks):
                order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(k.get("reverse", False)))
                return Seq("list", [xs[i] for i in order])
            if all(isinstance(x, Seq) and x.plain and all(isinstance(y, (int, float, str)) for y in x.parts) for x in ks):
                order = sorted(range(len(xs)), key=lambda i: tuple(ks[i].parts), reverse=bool(k.get("reverse", False)))
                return Seq("list", [xs[i] for i in order])
            return T("sorted", *[self.fz(x) for x in xs])
        if n in ("any", "all"):
            for x in self.iterate(a[0]):
                if self.truth(x) == (n == "any"):
                    return n == "any"
            return n != "any"
        if n == "next":
            try:
                return self.gen_next(a[0])
            except Raised as r:
                if len(a) > 1 and "StopIteration" in exc_names(self.prog, r.value):
                    return a[1]
                raise
        if n == "iter" and len(a) == 2:
            out = []
            while True:
                v = self.call(a[0], [], [])
                if self.key(v) == self.key(a[1]):
                    return self.seq_gen(out)
                out.append(v)
                if len(out) > 64:
                    raise Stuck("endless iter()")
        if n == "iter" and len(a) == 1:
            if isinstance(a[0], (GenObj, Stub)):
                return a[0]
            return self.seq_gen(list(self.iterate(a[0])))
        if n in ("enumerate", "zip", "map", "filter", "reversed"):
            if n == "enumerate" and not isinstance(a[0], T):
                st = a[1] if len(a) > 1 else k.get("start", 0)
                return Seq("list", [Seq("tuple", [i + st, x]) for i, x in enumerate(self.iterate(a[0]))])
            if n == "zip" and a and not any(isinstance(x, T) for x in a):
                its = [self.iterate(x) for x in a]
                out = []
                while True:
                    row = []
                    for it in its:
                        try:
                            row.append(next(it))
                        except StopIteration:
                            return Seq("list", out)
                    out.append(Seq("tuple", row))
                    if len(out) > 200:
                        raise Stuck("infinite zip")
            if n == "map" and not any(isinstance(x, T) for x in a[1:]):
                return Seq("list", [self.call(a[0], list(p), []) for p in zip(*[list(self.iterate(x)) for x in a[1:]])])
            if n == "filter" and not isinstance(a[1], T):
                return Seq("list", [x for x in self.iterate(a[1]) if self.truth(self.call(a[0], [x], []) if a[0] is not None else x)])
            if n == "reversed" and isinstance(a[0], (Seq, Dct)):
                return Seq("list", list(self.iterate(a[0]))[::-1])
        if n in ("max", "min", "sum") and len(a) == 1 and not isinstance(a[0], T):
            xs = list(self.iterate(a[0]))
            if n == "sum" and all(isinstance(x, (int, float, Lin)) for x in xs):
                r = 0
                for x in xs:
                    r = self.binop(ast.Add(), r, x)
                return r
            keyf = k.get("key")
            ks = [self.call(keyf, [x], []) if keyf is not None else x for x in xs]
            if n in ("max", "min") and xs and all(isinstance(x, (int, float)) for x in ks):
                pick = (max if n == "max" else min)(range(len(xs)), key=lambda i: ks[i])
                return xs[pick]
            if n in ("max", "min") and not xs and "default" in k:
                return k["default"]
        if n == "print":
            return None
        if n == "str" and len(a) == 1:
            x = a[0]
            if isinstance(x, Stub) and x.methods.get("__str__") is not None:
                return self.call(Native(x.methods["__str__"], "__str__"), [], [])
            if isinstance(x, Obj):
                m = self.prog.method(x.cls, "__str__", required=False)
                if m is not None:
                    return self.call(Bound(m, x, x.cls), [], [])
            if isinstance(x, (Exc, Obj)) and "BaseException" in exc_names(self.prog, x):
                args = x.args if isinstance(x, Exc) else x.attrs.get("args", Seq("tuple", [])).parts
                if len(args) == 1:
                    return self.x_builtin("str", [args[0]], {}, []) if not isinstance(args[0], str) else args[0]
                if not args:
                    return ""
            if not isinstance(x, _PRIM):
                return T("str", self.fz(x))
        if n == "repr" and len(a) == 1:
            return repr(a[0]) if isinstance(a[0], _PRIM) else T("repr", self.fz(a[0]))
        if n == "dict" and a and not isinstance(a[0], (Dct, Seq, T)):
            d = Dct()
            for p in self.iterate(a[0]):
                self.setitem(d, self.index(p, 0), self.index(p, 1))
            return d
        if n == "getattr" and isinstance(a[1], str):
            try:
                return self.attr(a[0], a[1])
            except Raised as r:
                if len(a) > 2 and "AttributeError" in exc_names(self.prog, r.value):
                    return a[2]
                raise
        if n == "super":
            raise Stuck("bare super")
        if n == "object" and not a:
            return Stub("object()")
        if n == "len" and len(a) == 1 and isinstance(a[0], Obj) and self.named_tuple(a[0]):
            return len(a[0].cls.annotations)
        if n == "len" and len(a) == 1 and isinstance(a[0], (Obj, Stub)):
            m = self.attr(a[0], "__len__")
            return self.call(m, [], [])
        if n in ("locals", "globals"):
            return Dct()
        if n == "__import__":
            self.ev_("import", a[0])
            return T("module", self.fz(a[0]))
        return NotImplemented

    def flatcls(self, c):
        if isinstance(c, Seq):
            return [y for x in c.parts for y in self.flatcls(x)]
        if isinstance(c, T) and c.op == "BitOr":
            return [y for x in c.a for y in self.flatcls(x)]
        return [c]

    def clsname(self, c):
        if isinstance(c, (ClassInfo, ExtCls)):
            return c.name
        if isinstance(c, tuple):
            return c[1].split(".")[-1]
        if isinstance(c, T) and c.op == "ext":
            return c.a[0].split(".")[-1]
        if isinstance(c, T) and c.op == "cls":
            return c.a[0].split(".")[-1]
        if isinstance(c, Native) and c.label[:1].isupper():
            return c.label
        return None

    def isinst(self, v, cs):
        ns = None
        if isinstance(v, Obj):
            ns = cls_names(self.prog, v.cls) if isinstance(v.cls, ClassInfo) else [v.cls.name]
        elif isinstance(v, Exc):
            ns = _ext_names(v.name)
        elif isinstance(v, bool):
            ns = ["bool", "int"]
        elif isinstance(v, _PRIM):
            ns = [type(v).__name__]
        elif isinstance(v, Seq):
            ns = [v.kind, "Sequence", "Iterable"]
        elif isinstance(v, Dct):
            ns = ["dict", "Mapping"]
        elif isinstance(v, Stub):
            kd = v.kind if isinstance(v.kind, (tuple, list)) else [v.kind] if v.kind else []
            if v.kind is None:
                return None if any(self.clsname(c) is None for c in cs) else False
            ns = list(kd)
        elif isinstance(v, Coro):
            ns = ["Coroutine", "Awaitable", "coroutine"]
        elif isinstance(v, Task):
            ns = ["Task", "Future", "Awaitable"]
        elif isinstance(v, Fut):
            ns = ["Future", "Awaitable"]
        elif isinstance(v, GenObj):
            ns = ["AsyncGenerator", "AsyncIterator", "AsyncGeneratorType"] if v.is_async else ["Generator", "GeneratorType", "Iterator", "Iterable"]
        elif isinstance(v, (ClassInfo, ExtCls)):
            ns = ["type"]
        elif isinstance(v, (Bound, Func, Clo, Native, Part)):
            ns = ["function", "Callable", "partial" if isinstance(v, Part) else "function"]
        elif isinstance(v, T) and v.op == "enum":
            c = self.class_by_qual(v.a[0])
            ns = cls_names(self.prog, c)
        if ns is None:
            return None
        names = [self.clsname(c) for c in cs]
        return any(x in ns or x == "object" for x in names)

    def super_value(self, e, env):
        """super(cls, cls) as a value: attributes of the classes after cls"""
        a = [self.ev(x, env) for x in e.args]
        if len(a) != 2 or not isinstance(a[0], ClassInfo):
            raise Stuck("bare super")
        sub = a[1] if isinstance(a[1], ClassInfo) else a[1].cls if isinstance(a[1], Obj) else None
        if sub is None:
            raise Stuck("bare super")
        mro = list(self.prog.mro(sub))
        rest = mro[mro.index(a[0]) + 1:] if a[0] in mro else []

        def find(it, n):
            for c in rest:
                if (c.qual, n) in self.clsattrs:
                    return self.clsattrs[(c.qual, n)]
                if n in c.methods:
                    return Bound(c.methods[n], a[1], c)
                if n in c.class_vars:
                    return self.classvar(c, n)
            raise Raised(Exc("AttributeError", ["super", n]), n)
        return Stub("super", default=find)

    def typeof(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Exc):
            return ("builtin", v.name) if hasattr(builtins, v.name) else ExtCls.get(v.name)
        if isinstance(v, Seq):
            return ("builtin", v.kind)
        if isinstance(v, Dct):
            return ("builtin", "dict")
        if isinstance(v, _PRIM):
            return ("builtin", type(v).__name__)
        if isinstance(v, T) and v.op == "enum":
            return self.class_by_qual(v.a[0])
        if isinstance(v, Stub):
            return v.attrs.get("__class__") or T("type", v.frozen())
        return T("type", self.fz(v))

    def copy(self, v):
        if isinstance(v, Obj):
            return Obj(v.cls, dict(v.attrs))
        if isinstance(v, Exc):
            e = Exc(v.name, v.args)
            e.attrs.update(v.attrs)
            return e
        if isinstance(v, Seq):
            return Seq(v.kind, v.parts)
        if isinstance(v, Dct):
            return self.dcopy(v)
        return v

    def deepcopy(self, v):
        if isinstance(v, Obj):
            return Obj(v.cls, {k: self.deepcopy(x) for k, x in v.attrs.items()})
        if isinstance(v, Seq):
            return Seq(v.kind, [self.deepcopy(x) for x in v.parts])
        if isinstance(v, Dct):
            d = self.dcopy(v)
            d.items = {k: self.deepcopy(x) for k, x in d.items.items()}
            return d
        return v

    def exit_stack(self):
        todo = []
        close = {}

        def push(fn):
            todo.append(fn)

        def unwind(it, e):
            cur = e
            for fn in reversed([*todo]):
                todo.pop()
                try:
                    if fn(cur) and cur is not None:
                        cur = None
                except Raised as r:
                    cur = r
            return cur

        def leave(it, a, k):
            e = Raised(a[1]) if len(a) > 1 and a[1] is not None else None
            r = unwind(it, e)
            if r is not None and r is not e:
                raise r
            return e is not None and r is None

        def mgr(it, cm, en, ex, wait):
            v = it.call(it.attr(cm, en), [], [])
            v = it.await_(v) if wait else v
            def out(r):
                args = [it.typeof(r.value), r.value, None] if r is not None else [None, None, None]
                x = it.call(it.attr(cm, ex), args, [])
                return it.truth(it.await_(x) if wait else x)
            push(out)
            return v

        def cb(wait):
            def run(it, a, k):
                def out(r):
                    x = it.call(a[0], list(a[1:]), list(k))
                    if wait:
                        it.await_(x)
                    return False
                push(out)
                return a[0]
            return run
        for n, wait in (("callback", False), ("push_async_callback", True)):
            close[n] = cb(wait)
        close["enter_context"] = lambda it, a, k: mgr(it, it.cm_of(a[0], False), "__enter__", "__exit__", False)
        close["enter_async_context"] = lambda it, a, k: Coro(lambda: mgr(it, it.cm_of(a[0], True), "__aenter__", "__aexit__", True), "enter")
        close["close"] = lambda it, a, k: leave(it, [None, None, None], k)
        close["aclose"] = lambda it, a, k: Coro(lambda: leave(it, [None, None, None], k), "aclose")
        st = Stub("exit stack")
        close["__enter__"] = lambda it, a, k: st
        close["__exit__"] = leave
        close["__aenter__"] = lambda it, a, k: Coro(lambda: st, "enter")
        close["__aexit__"] = lambda it, a, k: Coro(lambda: leave(it, a, k), "exit")
        st.methods.update(close)
        return st

    def cm_of(self, v, is_async):
        if isinstance(v, (CtxMan, Lock, T)) or isinstance(v, Stub) and v.kind == "suppress":
            raise Stuck("a context manager on an exit stack")
        return v

    def dcopy(self, v):
        d = Dct(v.items, v.base)
        if hasattr(v, "factory"):
            d.factory = v.factory
        return d

    # -- generators
    def e_GeneratorExp(self, e, env):
        g0 = e.generators[0]
        if _effects(e):
            first = self.ev(g0.iter, env)
            if not (isinstance(first, T) or isinstance(first, Seq) and not first.plain):
                pre = _Pre(e, first)
                return GenObj("generator expression", lambda: self._comp(pre, env, lambda en: self.gen_yield(self.ev(e.elt, en))), False)
        v = super().e_GeneratorExp(e, env)
        if isinstance(v, Seq) and v.plain:
            v.at = 0
        return v

    def gen_next(self, g, sent=None, exc=None):
        """Advance a generator; raises Raised(StopIteration)."""
        if isinstance(g, Stub):
            return self.call(self.attr(g, "__next__"), [], [])
        if isinstance(g, Obj):
            return self.call(self.attr(g, "__next__"), [], [])
        if isinstance(g, Seq) and getattr(g, "at", None) is not None:  # evaluated at once; its elements have no effects of their own
            if g.at >= len(g.parts):
                raise Raised(Exc("StopIteration"))
            g.at += 1
            return g.parts[g.at - 1]
        if not isinstance(g, GenObj):
            raise Raised(Exc("TypeError", ["not an iterator"]))
        stop = "StopAsyncIteration" if g.is_async else "StopIteration"
        if g.state == "count":
            g.count += 1
            return g.count - 1
        if g.state == "repeat":
            return g.value
        if g.state == "seq":
            if not g.items:
                raise Raised(Exc(stop), stop)
            return g.items.pop(0)
        if g.state == "done":
            if exc is not None:
                raise exc
            raise Raised(Exc(stop), stop)
        if g.state == "new":
            if exc is not None:
                g.state = "done"
                raise exc
            g.fiber = Fiber(self, g.body, g.label)
            g.state = "active"
            g.fiber.gen = g
        fb = g.fiber
        fb.consumer = self.fiber
        fb.sent = sent
        if exc is not None:
            fb.inject = exc
        while True:
            fb.relay = False
            fb.resume()
            if fb.state == "done":
                g.state = "done"
                if fb.error is not None:
                    e = fb.error
                    if isinstance(e, Raised) and stop in exc_names(self.prog, e.value):
                        raise Raised(Exc("RuntimeError", ["generator raised " + stop]), "generator")
                    raise e
                raise Raised(Exc(stop, [] if fb.result is None else [fb.result]), stop)
            if fb.relay:
                # the generator awaits something: its consumer waits for it
                me = self.fiber
                me.wait, me.wake, me.awaiting, me.shielded = fb.wait, fb.wake, getattr(fb, "awaiting", None), getattr(fb, "shielded", False)
                if fb in self.ready:
                    self.ready.remove(fb)
                    self.ready.append(me)
                try:
                    self.base_switch(me)
                except Raised as r:
                    fb.inject = r
                me.wait = me.wake = me.awaiting = None
                continue
            return fb.out

    def gen_yield(self, v):
        fb = self.fiber
        if not hasattr(fb, "gen"):
            raise Stuck("yield outside a generator")
        fb.out = v
        fb.suspend()
        return fb.sent

    def seq_gen(self, items):
        g = GenObj("iter", None, False)
        g.state, g.items = "seq", list(items)
        return g

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        cm = getattr(env_root(env), "cm", None)
        if cm is not None:
            return cm(v)
        return self.gen_yield(v)

    def e_YieldFrom(self, e, env):
        for x in self.iterate(self.ev(e.value, env)):
            self.gen_yield(x)
        return None

    def iterate(self, v):
        """Python iterator over the elements of a value."""
        if isinstance(v, Seq) and getattr(v, "at", None) is not None and v.plain:   # what is left of a generator expression
            xs = list(v.parts[v.at:])
            v.at = len(v.parts)
            return iter(xs)
        if isinstance(v, Seq):
            if not v.plain:
                raise Stuck("iteration over unknown")
            return iter(list(v.parts))
        if isinstance(v, Dct):
            if v.base is not None:
                raise Stuck("iteration over unknown")
            return iter([unkey(k) for k in v.items])
        if isinstance(v, (str, bytes)):
            return iter(v)
        if isinstance(v, GenObj):
            return self._gen_iter(v)
        if isinstance(v, Obj):
            m = self.prog.method(v.cls, "__iter__", required=False)
            if m is not None:
                return self.iterate(self.call(Bound(m, v, v.cls), [], []))
            if any(b.endswith("NamedTuple") for b in self.prog.class_ext_bases(v.cls)):
                return iter([self.attr(v, n) for n in v.cls.annotations])
            if any(b.endswith(("Enum", "IntEnum")) for b in self.prog.class_ext_bases(v.cls)):
                raise Stuck("enum iteration")
        if isinstance(v, Stub) and "__iter__" in v.methods:
            return self.iterate(v.methods["__iter__"](self, [], []))
        if isinstance(v, ClassInfo):
            ext = [b.split(".")[-1] for b in self.prog.class_ext_bases(v)]
            if any(b in ("Enum", "IntEnum") for b in ext):
                return iter([T("enum", v.qual, n) for n in v.class_vars if not n.startswith("_")])
        if isinstance(v, _PRIM) or isinstance(v, (Coro, Fut)):
            raise Raised(Exc("TypeError", [f"{type(v).__name__} object is not iterable"]))
        raise Stuck(f"iteration over {v!r}"[:120])

    def _gen_iter(self, g):
        n = 0
        while True:
            try:
                x = self.gen_next(g)
            except Raised as r:
                if "StopIteration" in exc_names(self.prog, r.value):
                    return
                raise
            n += 1
            if n > 500:
                raise Stuck("infinite iteration")
            yield x

    # -- attributes
    def glob(self, m, n):
        r = super().glob(m, n)
        if isinstance(r, tuple) and r[0] == "ext" and r[1] in self.exts:
            return self.exts[r[1]]
        return r

    def attr(self, o, n):
        self.tick()
        if isinstance(o, tuple) and o and o[0] == "ext" and f"{o[1]}.{n}" in self.exts:
            return self.exts[f"{o[1]}.{n}"]
        if isinstance(o, Stub):
            if n in o.attrs:
                return o.attrs[n]
            if n in o.methods:
                fn = o.methods[n]
                nat = Native(fn, f"{o.label}.{n}")
                nat.is_async = getattr(fn, "is_async", False)
                return nat
            if o.default is not None:
                return o.default(self, n)
            raise Raised(Exc("AttributeError", [o.label, n]), f"{o.label}.{n}")
        if isinstance(o, Fut) and n == "_exception":
            return o.value if o.state == "error" else None
        if isinstance(o, Fut):
            return Native(lambda it, a, k: it.futmeth(o, n, a, dict(k)), f"{o.label}.{n}")
        if isinstance(o, Event):
            return Native(lambda it, a, k: it.evmeth(o, n), f"event.{n}")
        if isinstance(o, Lock):
            return Native(lambda it, a, k: it.lockmeth(o, n), f"lock.{n}")
        if isinstance(o, Coro):
            if n in ("close", "send", "throw"):
                return Native(lambda it, a, k: setattr(o, "state", "closed"), f"coro.{n}")
            raise Raised(Exc("AttributeError", ["coroutine", n]), n)
        if isinstance(o, GenObj):
            if n in ("__next__", "__anext__", "send", "asend", "throw", "athrow", "close", "aclose", "__iter__", "__aiter__"):
                if o.is_async != (n in ("__anext__", "asend", "athrow", "aclose", "__aiter__")):
                    raise Raised(Exc("AttributeError", ["generator", n]), n)
                return Native(lambda it, a, k: it.genmeth(o, n, a), f"gen.{n}")
            raise Raised(Exc("AttributeError", ["generator", n]), n)
        if isinstance(o, Exc):
            if n in o.attrs:
                return o.attrs[n]
            if n == "args":
                return Seq("tuple", o.args)
            if n == "value" and o.name in ("StopIteration", "Return"):
                return o.args[0] if o.args else None
            if n == "with_traceback":
                def wt(it, a, k):
                    o.attrs["__traceback__"] = a[0]
                    return o
                return Native(wt)
            if n in ("__traceback__", "__cause__", "__context__"):
                return o.attrs.get(n, T("tb", self.fz(o)) if n == "__traceback__" else None)
            if n == "__class__":
                return self.typeof(o)
            if n == "errno":
                return o.args[0] if o.args else None
            raise Raised(Exc("AttributeError", [o.name, n]), n)
        if isinstance(o, Native):
            if n in ("__name__", "__qualname__"):
                return o.label.split(".")[-1]
            at = getattr(o, "attrs", {})
            if n in at:
                return at[n]
            raise Raised(Exc("AttributeError", [o.label, n]), n)
        if isinstance(o, (Func, Clo, Bound)) and n in ("__name__", "__qualname__", "__self__", "__func__", "__doc__", "__module__", "__wrapped__"):
            f = o.func if isinstance(o, (Clo, Bound)) else o
            if n == "__self__":
                if isinstance(o, Bound):
                    return o.self
                raise Raised(Exc("AttributeError", [n]), n)
            if n == "__func__" and isinstance(o, Bound):
                return o.func
            if n in ("__name__", "__qualname__"):
                return f.name
            if n == "__wrapped__":
                raise Raised(Exc("AttributeError", [n]), n)
            return T("attr", self.fz(o), n)
        if isinstance(o, (Func, Clo, Bound)):
            f = o.func if isinstance(o, (Clo, Bound)) else o
            at = self.fattrs(f if not isinstance(o, Clo) else o)
            if n in at:
                return at[n]
            raise Raised(Exc("AttributeError", [f.name, n]), n)
        if isinstance(o, Obj) and n in ("_replace", "_asdict") and self.named_tuple(o):
            def nt(it, x, y):
                d = {q: it.attr(o, q) for q in o.cls.annotations}
                d.update(y)
                return Dct(dict(d)) if n == "_asdict" else it.construct(o.cls, [], list(d.items()))
            return Native(nt, n)
        if isinstance(o, Obj):
            return self.attr_obj(o, n)
        if isinstance(o, ClassInfo):
            r = self.cls_attr(o, n)
            if r is not NotImplemented:
                return r
        if n == "__getattribute__" and (isinstance(o, ExtCls) and o.name == "object" or o == ("builtin", "object") or isinstance(o, T) and o.op == "ext" and o.args == ("object",)):
            return ("ext", "object.__getattribute__")
        if n in ("__name__", "__qualname__") and isinstance(o, tuple) and not isinstance(o, T) and len(o) == 2 and o[0] in ("builtin", "ext"):
            return str(o[1]).split(".")[-1]
        if isinstance(o, ExtCls) and n in ("__name__", "__qualname__"):
            return o.name
        if n in ("__name__", "__qualname__") and isinstance(o, T) and o.op == "ext" and len(o.a) == 1 and is_exc_class(str(o.a[0])):
            return o.a[0].split(".")[-1]
        if isinstance(o, T) and o.op == "ext" and o.a == ("dict",) and n == "fromkeys":
            return ("ext", "dict.fromkeys")
        if o == ("builtin", "dict") and n == "fromkeys" or o == ("ext", "dict") and n == "fromkeys":
            return ("ext", "dict.fromkeys")
        if isinstance(o, T) and self.attr_hook is not None:
            r = self.attr_hook(self, o, n)
            if r is not NotImplemented:
                return r
        if isinstance(o, _PRIM) and not isinstance(o, (str, bytes)):
            if o is None or not hasattr(o, n):
                raise Raised(Exc("AttributeError", [type(o).__name__, n]), f"{o!r}.{n}")
        if isinstance(o, (Seq, Dct)):
            t = {"list": list, "tuple": tuple, "set": set}.get(getattr(o, "kind", "dict"), dict) if isinstance(o, Seq) else dict
            if not hasattr(t, n) and not (n == "move_to_end" and getattr(o, "ordered", False)) and not (getattr(o, "deque", False) and n in ("appendleft", "popleft", "extendleft", "rotate")):
                raise Raised(Exc("AttributeError", [t.__name__, n]), n)
            return ("meth", o, n)
        return super().attr(o, n)

    def fattrs(self, f):
        if not hasattr(self, "_fattrs"):
            self._fattrs = {}
        return self._fattrs.setdefault(id(f), {})

    def attr_plain(self, o, n):
        if isinstance(o, Obj):
            return self.attr_obj(o, n, ga=False)
        return self.attr(o, n)

    def attr_obj(self, o, n, ga=True):
        if self.attr_hook is not None:
            r = self.attr_hook(self, o, n)
            if r is not NotImplemented:
                return r
        m = self.prog.method(o.cls, n, required=False)
        if m is not None and m.is_property:
            k = self.stub_for(m)
            if k is not None:
                return k(self, [o], [])
            if "cached_property" in m.deco_names():
                if n not in o.attrs:
                    o.attrs[n] = Interp.call_func(self, m, [o], [], o.cls)
                return o.attrs[n]
            return Interp.call_func(self, m, [o], [], o.cls)
        if n in o.attrs:
            return o.attrs[n]
        if n == "__class__":
            return o.cls
        if n == "__dict__":
            return Dct({k: v for k, v in o.attrs.items()})
        if m is not None:
            r = self.cls_attr_set(o.cls, n)
            if r is not NotImplemented:
                return r
            if m.is_classmethod:
                return Bound(m, o.cls, o.cls)
            return Bound(m, o, o.cls)
        r = self.cls_attr_set(o.cls, n)
        if r is not NotImplemented:
            if isinstance(r, Clo):          # a function put on the class
                return Part(r, [o], [])
            if isinstance(r, Stub) and r.kind == "property":
                return self.call(r.attrs["fget"], [o], [])
            return r
        r = self.classvar(o.cls, n)
        if r is not NotImplemented:
            return r
        if "BaseException" in cls_names(self.prog, o.cls):
            if n == "with_traceback":
                def wt(it, a, k):
                    o.attrs["__traceback__"] = a[0]
                    return o
                return Native(wt)
            if n in ("__traceback__", "__cause__", "__context__"):
                return o.attrs.get(n, T("tb", T("ref", id(o))) if n == "__traceback__" else None)
            if n == "args":
                return Seq("tuple", [])
            if n == "value" and o.attrs.get("args") is not None and o.attrs["args"].parts:
                pass
        if n in self.fields(o.cls):
            return None
        if ga:
            g = self.prog.method(o.cls, "__getattr__", required=False)
            if g is not None:
                return self.call(Bound(g, o, o.cls), [n], [])
        raise Raised(Exc("AttributeError", [o.cls.name, n]), f"{o.cls.name}.{n}")

    def cls_attr_set(self, cls, n):
        for c in self.prog.mro(cls):
            if (c.qual, n) in self.clsattrs:
                return self.clsattrs[(c.qual, n)]
        return NotImplemented

    def cls_attr(self, cls, n):
        r = self.cls_attr_set(cls, n)
        if r is not NotImplemented:
            return r
        if n == "__mro__":
            return Seq("tuple", list(self.prog.mro(cls)))
        m = self.prog.method(cls, n, required=False)
        if m is not None and "classproperty" in m.deco_names():
            return Interp.call_func(self, m, [cls], [], cls)
        return NotImplemented

    def classvar(self, cls, n):
        for c in self.prog.mro(cls):
            if n in c.class_vars:
                key = (c.qual, n)
                if key not in self.clskeep:
                    v = c.class_vars[n]
                    self.clskeep[key] = None if v is None else self.ev(v, Env(None, {}, c, None, c.module))
                return self.clskeep[key]
        return NotImplemented

    def setattr(self, o, n, v):
        if isinstance(o, Stub):
            st = o.methods.get("__setattr__")
            if st is not None:
                st(self, [n, v], [])
            else:
                o.attrs[n] = v
            return
        if isinstance(o, Exc):
            o.attrs[n] = v
            return
        if isinstance(o, ClassInfo):
            self.clsattrs[(o.qual, n)] = v
            return
        if isinstance(o, (Func, Clo, Bound)):
            f = o.func if isinstance(o, Bound) else o
            self.fattrs(f)[n] = v
            return
        if isinstance(o, Native):
            o.attrs = dict(getattr(o, "attrs", {}), **{n: v})
            return
        if isinstance(o, Obj):
            for c in self.prog.mro(o.cls):
                s = c.setters.get(n)
                if s is not None:
                    Interp.call_func(self, s, [o, v], [], o.cls)
                    return
            m = self.prog.method(o.cls, n, required=False)
            if m is not None and m.is_property:
                raise Raised(Exc("AttributeError", [n]), "property has no setter")
            o.attrs[n] = v
            return
        if isinstance(o, Module):
            self.mods[(o.name, n)] = v
            return
        super().setattr(o, n, v)

    # -- methods of machine values
    def futmeth(self, f, n, a, k):
        if n == "done":
            return f.done
        if n == "cancelled":
            return f.state == "cancelled"
        if n == "cancel":
            return self.task_cancel(f)
        if n == "result":
            return self.fut_result(f)
        if n == "exception":
            if f.state == "cancelled":
                raise Raised(f.value)
            if f.state == "pending":
                raise Raised(Exc("InvalidStateError"))
            return f.value if f.state == "error" else None
        if n in ("set_result", "set_exception"):
            if f.done:
                raise Raised(Exc("InvalidStateError"), "future already done")
            v = a[0] if a else None
            if n == "set_exception" and isinstance(v, ClassInfo):
                v = self.construct(v, [], [])
            if n == "set_exception" and v is None:
                raise Raised(Exc("TypeError"), "set_exception(None)")
            self.finish(f, "done" if n == "set_result" else "error", v)
            return None
        if n == "add_done_callback":
            if f.done:
                self.call(a[0], [f], [])
            else:
                f.callbacks.append(a[0])
            return None
        if n in ("get_name", "set_name", "get_coro", "remove_done_callback"):
            return T("call", f.frozen(), n)
        raise Raised(Exc("AttributeError", ["Future", n]), n)

    def evmeth(self, o, n):
        if n == "set":
            o.flag = True
            return None
        if n == "clear":
            o.flag = False
            return None
        if n == "is_set":
            return o.flag
        if n == "wait":
            def w():
                if not o.flag:
                    self.block(lambda: o.flag)
                self.raise_injected()
                return True
            return Coro(w, "event.wait")
        raise Raised(Exc("AttributeError", ["Event", n]), n)

    def lockmeth(self, o, n):
        if n in ("acquire", "__aenter__"):
            def acq():
                fb, q = self.fiber, o.waiters
                if o.free <= 0 or q:        # first come, first served
                    q.append(fb)
                    try:
                        self.block(lambda: o.free > 0 and q[0] is fb)
                    finally:
                        q.remove(fb)
                self.raise_injected()
                o.free -= 1
                return True if n == "acquire" else None
            return Coro(acq, "lock.acquire") if o.kind == "asyncio" else acq()
        if n == "__enter__":
            if o.free <= 0:
                raise Raised(Exc("DEADLOCK"), "thread lock taken twice")
            o.free -= 1
            return True
        if n in ("release", "__aexit__", "__exit__"):
            if o.free >= (1 if o.bound is None else o.bound):
                raise Raised(Exc("RuntimeError" if o.bound is None else "ValueError", ["release unlocked lock"]))
            o.free += 1
            return Coro(lambda: None, "lock.release") if n == "__aexit__" else None
        if n == "locked":
            return o.free <= 0
        raise Raised(Exc("AttributeError", ["Lock", n]), n)

    def genmeth(self, g, n, a):
        if n in ("__iter__", "__aiter__"):
            return g
        if n in ("__next__", "__anext__"):
            f = lambda: self.gen_next(g)  # noqa: E731
        elif n in ("send", "asend"):
            f = lambda: self.gen_next(g, a[0])  # noqa: E731
        elif n in ("throw", "athrow"):
            ex = a[1] if len(a) > 1 and a[1] is not None else a[0]
            if isinstance(ex, (ClassInfo,)):
                ex = self.construct(ex, [], [])
            f = lambda: self.gen_next(g, None, Raised(ex, "athrow"))  # noqa: E731
        else:
            def f():
                if g.state == "new":
                    g.state = "done"
                    return None
                try:
                    self.gen_next(g, None, Raised(Exc("GeneratorExit"), "close"))
                except Raised as r:
                    if not {"GeneratorExit", "StopIteration", "StopAsyncIteration"} & set(exc_names(self.prog, r.value)):
                        raise
                return None
        return Coro(f, "gen." + n) if g.is_async else f()

    # -- keyed containers
    def key(self, v):
        if isinstance(v, _PRIM) or isinstance(v, (T, tuple, Lin)):
            return v
        if isinstance(v, Obj):
            h = self.prog.method(v.cls, "__hash__", required=False)
            if h is not None:
                return K(("hash", freeze(self.call(Bound(h, v, v.cls), [], []))), v)
            if self.prog.method(v.cls, "__eq__", required=False) is not None:
                raise Raised(Exc("TypeError", ["unhashable"]), f"unhashable {v.cls.name}")
            if any(b.split(".")[-1] in ("dataclass",) for b in v.cls.node.decorator_list and [ast.unparse(d) for d in v.cls.node.decorator_list]):
                return K(("dc", freeze(v)), v)
            return K(("id", id(v)), v)
        if isinstance(v, Seq):
            if v.kind in ("list", "set"):
                raise Raised(Exc("TypeError", ["unhashable type"]), "unhashable")
            return K((v.kind,) + tuple(self.key(p) if not isinstance(p, Splice) else p.t for p in v.parts), v)
        if isinstance(v, Dct):
            raise Raised(Exc("TypeError", ["unhashable type"]), "unhashable")
        if isinstance(v, (ClassInfo, Func)):
            return K(("q", v.qual), v)
        return K(("id", id(v)), v)

    def eq(self, a, b):
        """True / False / term"""
        if a is b:
            return True
        if isinstance(a, _PRIM) and isinstance(b, _PRIM):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                m = self.prog.method(x.cls, "__eq__", required=False)
                if m is not None:
                    return self.truth(self.call(Bound(m, x, x.cls), [y], []))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.cls is b.cls and any("dataclass" in ast.unparse(d) for d in a.cls.node.decorator_list):
                return freeze(a) == freeze(b)
            return False
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.kind != b.kind or a.plain and b.plain and len(a.parts) != len(b.parts):
                return False
            if a.plain and b.plain:
                if a.kind == "set":
                    return {self.key(x) for x in a.parts} == {self.key(x) for x in b.parts}
                return all(self.truth(self.eq(x, y)) for x, y in zip(a.parts, b.parts))
        if isinstance(a, Dct) and isinstance(b, Dct) and a.base is None and b.base is None:
            return set(a.items) == set(b.items) and all(self.truth(self.eq(a.items[k], b.items[k])) for k in a.items)
        if isinstance(a, T) and isinstance(b, T) and a == b:
            return True
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, T) and a.op == "enum" and isinstance(b, T) and b.op == "enum":
                return a == b
            for x, y in ((a, b), (b, a)):
                if isinstance(x, T) and x.op == "enum" and isinstance(y, (int, str, type(None))):
                    c = self.class_by_qual(x.a[0])
                    if c is not None and not any(q.endswith(("IntEnum", "IntFlag", "StrEnum")) for q in self.prog.class_ext_bases(c)):
                        return False
                    v = self.attr(x, "value")
                    if isinstance(v, (int, str)):
                        return v == y
            return T("eq", *sorted((self.fz(a), self.fz(b)), key=repr))
        return a == b if type(a) is type(b) and isinstance(a, tuple) else False

    def compare(self, op, a, b):
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        ident = (Obj, Seq, Dct, Val)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if (a is None or b is None) and any(isinstance(x, tuple) and x and x[0] in ("meth", "builtin") for x in (a, b)):
                return neg
            if isinstance(a, ident + (ClassInfo, Bound, Clo, Func)) or isinstance(b, ident + (ClassInfo, Bound, Clo, Func)):
                if isinstance(a, Bound) and isinstance(b, Bound):
                    return (a.func is b.func and a.self is b.self) != neg
                return (a is b) != neg
            return super().compare(op, a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            special = "__ne__" if neg else "__eq__"
            if isinstance(a, Stub) and special in a.methods and b is not None:
                return a.methods[special](self, [b], [])
            if isinstance(a, ident) or isinstance(b, ident) or any(isinstance(x, T) and x.op == "enum" for x in (a, b)):
                r = self.eq(a, b)
                if isinstance(r, bool):
                    return r != neg
                return T("Not", r) if neg else r
            return super().compare(op, a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Dct) and b.base is None:
                k = self.key(a)
                if k in b.items:
                    return not neg
                return neg   # as looking the key up: what is not known to be equal is another key
            if isinstance(b, Seq) and b.plain:
                unknown = []
                for p in b.parts:
                    r = self.eq(a, p)
                    if r is True:
                        return not neg
                    if r is not False:
                        unknown.append(r)
                if unknown and all(isinstance(x, T) and x.op == "sym" for u in unknown for x in u.a if isinstance(x, T)) and not isinstance(a, _PRIM):
                    unknown = []
                for u in unknown:
                    if self.truth(u):
                        return not neg
                return neg
            if isinstance(b, (Obj, Stub)):
                m = self.attr(b, "__contains__")
                return self.truth(self.call(m, [a], [])) != neg
            if isinstance(a, str) and isinstance(b, str) or isinstance(a, (bytes, int)) and isinstance(b, (bytes, bytearray)):
                return (a in b) != neg
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and isinstance(a, Seq) and isinstance(b, Seq) and a.plain and b.plain and all(isinstance(x, (int, str)) for x in a.parts + b.parts):
            return shapes._CMP[type(op)](a.parts, b.parts)
        return super().compare(op, a, b)

    def set_add(self, s, v):
        k = self.key(v)
        if all(self.key(p) != k for p in s.parts):
            s.parts.append(v)

    def index(self, o, i):
        if isinstance(o, Dct):
            k = self.key(i)
            if k in o.items:
                return o.items[k]
            if o.base is None:
                fac = getattr(o, "factory", None)
                if fac is not None:
                    o.items[k] = self.call(fac, [], [])
                    return o.items[k]
                raise Raised(Exc("KeyError", [i]), f"KeyError {i!r}")
            return T("item", self.fz(o.base), self.fz(i))
        if isinstance(o, Obj) and isinstance(i, (int, _Slice)) and self.named_tuple(o):
            return self.index(Seq("tuple", [self.attr(o, n) for n in o.cls.annotations]), i)
        if isinstance(o, (Obj, Stub)):
            m = self.attr(o, "__getitem__")
            return self.call(m, [i], [])
        if isinstance(o, Seq) and o.kind == "set":
            raise Raised(Exc("TypeError", ["'set' object is not subscriptable"]))
        if isinstance(o, Seq) and isinstance(i, _Slice) and o.plain and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
            return Seq(o.kind, o.parts[i.a:i.b:i.c])
        if o is None or isinstance(o, (int, float)):
            raise Raised(Exc("TypeError", [f"{type(o).__name__} is not subscriptable"]))
        if isinstance(o, (str, bytes)) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise Raised(Exc("IndexError"))
        return super().index(o, i)

    def setitem(self, o, i, v):
        if isinstance(o, Seq) and isinstance(i, _Slice) and o.kind == "list" and o.plain and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
            o.parts[i.a:i.b:i.c] = list(self.iterate(v))
            return
        if isinstance(o, Dct):
            k = self.key(i)
            if k in o.items and isinstance(k, K):
                old = next(x for x in o.items if x == k)
                o.items[old] = v
                return
            o.items[k] = v
            return
        if isinstance(o, (Obj, Stub)):
            m = self.attr(o, "__setitem__")
            self.call(m, [i, v], [])
            return
        if isinstance(o, Seq) and isinstance(i, int) and o.plain and not -len(o.parts) <= i < len(o.parts):
            raise Raised(Exc("IndexError"))
        super().setitem(o, i, v)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.loc:
                    raise Raised(Exc("UnboundLocalError", [t.id]), "del")
                env.loc.pop(t.id)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, env), self.ev(t.slice, env)
                if isinstance(o, Dct):
                    k = self.key(i)
                    if k not in o.items:
                        raise Raised(Exc("KeyError", [i]), f"KeyError {i!r}")
                    del o.items[k]
                elif isinstance(o, (Obj, Stub)):
                    self.call(self.attr(o, "__delitem__"), [i], [])
                elif isinstance(o, Seq) and isinstance(i, int) and o.plain:
                    del o.parts[i]
                else:
                    self.log.append(T("delitem", self.fz(o), self.fz(i)))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, (Obj, Stub)):
                    o.attrs.pop(t.attr, None)

    def e_Dict(self, e, env):
        d = Dct()
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if isinstance(x, Dct):
                    d.items.update(x.items)
                    if x.base is not None:
                        d.base = x.base
                else:
                    d.base = x
                continue
            kk = self.ev(k, env)
            self.setitem(d, kk, self.ev(v, env))
        return d

    def e_Set(self, e, env):
        s = Seq("set", [])
        for x in self.elts(e.elts, env):
            self.set_add(s, x)
        return s

    def e_SetComp(self, e, env):
        s = Seq("set", [])
        for x in self._compterm(e, env, "list").parts:
            if isinstance(x, Splice):
                s.parts.append(x)
            else:
                self.set_add(s, x)
        return s

    def e_DictComp(self, e, env):
        d = Dct()
        self._comp(e, env, lambda en: self.setitem(d, self.ev(e.key, en), self.ev(e.value, en)))
        return d

    def _comp(self, e, env, emit):
        def go(i, env):
            if i == len(e.generators):
                emit(env)
                return
            g = e.generators[i]
            it = self.ev(g.iter, env)
            for p in (self.aiterate(it) if g.is_async else self.iterate(it)):
                e2 = Env(None, {}, env.cls, env, env.module)
                self.assign(g.target, p, e2)
                if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                    go(i + 1, e2)
        go(0, env)

    def _compterm(self, e, env, kind):
        if len(e.generators) == 1 and not e.generators[0].is_async:
            it = self.ev(e.generators[0].iter, env)
            if isinstance(it, T) or isinstance(it, Seq) and not it.plain:
                return self._unknown_comp(it, e, env, kind)
        out = []
        self._comp(e, env, lambda en: out.append(self.ev(e.elt, en)))
        return Seq(kind, out)

    def _unknown_comp(self, it, e, env, kind):
        return Interp._compterm(self, _Pre(e, it), env, kind)

    def parts_of(self, v):
        if isinstance(v, (GenObj, Dct, str, bytes)) or isinstance(v, Seq) and (v.kind == "set" or getattr(v, "at", None) is not None):
            return list(self.iterate(v))
        return super().parts_of(v)

    def seqmeth(self, o, m, args, kw):
        if isinstance(o, Dct) and o.base is None and m in ("items", "keys", "values") and not args:
            r = Seq("list", [Seq("tuple", [unkey(k), v]) if m == "items" else unkey(k) if m == "keys" else v for k, v in o.items.items()])
            r.view_of = o
            return r
        k = dict((x, y) for x, y in kw if x is not None)
        if isinstance(o, Dct):
            if m in ("get", "pop", "setdefault", "__contains__") and args:
                key = self.key(args[0])
                if m == "__contains__":
                    return key in o.items
                if key in o.items:
                    if m == "pop":
                        return o.items.pop(key)
                    return o.items[key]
                if o.base is None:
                    d = args[1] if len(args) > 1 else k.get("default")
                    if m == "pop":
                        if len(args) > 1:
                            return d
                        raise Raised(Exc("KeyError", [args[0]]), f"KeyError {args[0]!r}")
                    if m == "setdefault":
                        o.items[key] = d
                    return d
            if m == "popitem" and o.base is None:
                if not o.items:
                    raise Raised(Exc("KeyError"), "popitem")
                last = k.get("last", args[0] if args else True)
                kk = list(o.items)[-1 if self.truth(last) else 0]
                return Seq("tuple", [unkey(kk), o.items.pop(kk)])
            if m == "move_to_end":
                kk = self.key(args[0])
                if kk not in o.items:
                    raise Raised(Exc("KeyError", [args[0]]), "move_to_end")
                v, rest = o.items.pop(kk), dict(o.items)
                if self.truth(k.get("last", args[1] if len(args) > 1 else True)):
                    o.items[kk] = v
                else:
                    o.items.clear()
                    o.items[kk] = v
                    o.items.update(rest)
                return None
            if m == "copy":
                return self.dcopy(o)
            if m == "clear":
                o.items.clear()
                o.base = None
                return None
            if o.base is None and m == "items":
                return Seq("list", [Seq("tuple", [unkey(x), y]) for x, y in o.items.items()])
            if o.base is None and m == "keys":
                return Seq("list", [unkey(x) for x in o.items])
            if m == "update" and args and not isinstance(args[0], (Dct, T)):
                for p in self.iterate(args[0]):
                    self.setitem(o, self.index(p, 0), self.index(p, 1))
                for kk, v in kw:
                    o.items[kk] = v
                return None
        if isinstance(o, Seq) and o.kind == "set":
            if m == "add":
                self.set_add(o, args[0])
                return None
            if m in ("discard", "remove"):
                kk = self.key(args[0])
                n = len(o.parts)
                o.parts[:] = [p for p in o.parts if self.key(p) != kk]
                if m == "remove" and len(o.parts) == n:
                    raise Raised(Exc("KeyError", [args[0]]), "remove")
                return None
            if m == "update":
                for a in args:
                    for x in self.iterate(a):
                        self.set_add(o, x)
                return None
            if m in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset"):
                return self.setop(m, o, args[0])
            if m == "pop":
                if not o.parts:
                    raise Raised(Exc("KeyError"), "pop from an empty set")
                return o.parts.pop(0)
            if m == "copy":
                return Seq("set", o.parts)
            if m == "clear":
                o.parts.clear()
                return None
        if isinstance(o, Seq) and o.kind == "list":
            if m == "remove" and o.plain:
                for i, p in enumerate(o.parts):
                    if self.truth(self.eq(p, args[0])):
                        del o.parts[i]
                        return None
                raise Raised(Exc("ValueError"), "list.remove")
            if m == "sort":
                r = self.x_builtin("sorted", [o], k, kw)
                if isinstance(r, Seq):
                    o.parts[:] = r.parts
                    return None
            if m == "reverse":
                o.parts.reverse()
                return None
            if m == "extendleft":
                for x in self.iterate(args[0]):
                    o.parts.insert(0, x)
                return None
            if m == "rotate" and all(isinstance(x, int) for x in args) and o.parts:
                i = (args[0] if args else 1) % len(o.parts)
                o.parts[:] = o.parts[-i:] + o.parts[:-i] if i else o.parts
                return None
            if m in ("appendleft",):
                o.parts.insert(0, args[0])
                return None
            if m == "popleft":
                if not o.parts:
                    raise Raised(Exc("IndexError"))
                return o.parts.pop(0)
            if m == "extend" and not isinstance(args[0], (Seq, T)):
                o.parts.extend(self.iterate(args[0]))
                return None
        if isinstance(o, Seq) and m in ("count",) and o.plain:
            return sum(1 for p in o.parts if self.truth(self.eq(p, args[0])))
        if isinstance(o, Seq) and m == "index" and o.plain:
            for i, p in enumerate(o.parts):
                if self.truth(self.eq(p, args[0])):
                    return i
            raise Raised(Exc("ValueError"), "index")
        if isinstance(o, (str, bytes)):
            if m == "join":
                xs = list(self.iterate(args[0]))
                if all(isinstance(x, type(o)) for x in xs):
                    return o.join(xs)
                return T("join", o, *[self.fz(x) for x in xs])
            if m in ("startswith", "endswith") and args and isinstance(args[0], Seq):
                return getattr(o, m)(tuple(args[0].parts))
            if m == "format":
                if all(isinstance(x, _PRIM) for x in args) and all(x is not None and isinstance(y, _PRIM) for x, y in kw):
                    return o.format(*args, **dict(kw))
                return T("format", o, *[self.fz(x) for x in args])
            if m in ("decode", "encode", "index", "rindex", "find", "rfind", "count", "split", "rsplit", "splitlines", "partition", "rpartition", "removeprefix", "removesuffix", "replace", "strip", "lstrip", "rstrip",
                     "lower", "upper", "casefold", "title", "capitalize", "startswith", "endswith", "isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isidentifier", "isspace", "islower", "isupper", "zfill", "ljust", "rjust", "hex") and hasattr(o, m):
                k = {n: v for n, v in kw if n is not None}
                if len(k) == len(kw) and all(isinstance(x, _PRIM) for x in [*args, *k.values()]):
                    try:
                        r = getattr(o, m)(*args, **k)
                    except (ValueError, TypeError) as e:
                        raise Raised(Exc(type(e).__name__, [str(e)]))
                    return Seq(type(r).__name__, list(r)) if isinstance(r, (list, tuple)) else r
        return super().seqmeth(o, m, args, kw)

    def setop(self, m, a, b):
        xs, ys = list(self.iterate(a)), list(self.iterate(b))
        kx, ky = [self.key(x) for x in xs], [self.key(y) for y in ys]
        if m == "issubset":
            return all(x in ky for x in kx)
        if m == "issuperset":
            return all(y in kx for y in ky)
        if m == "union":
            return Seq("set", xs + [y for y, k in zip(ys, ky) if k not in kx])
        if m == "intersection":
            return Seq("set", [x for x, k in zip(xs, kx) if k in ky])
        if m == "difference":
            return Seq("set", [x for x, k in zip(xs, kx) if k not in ky])
        return Seq("set", [x for x, k in zip(xs, kx) if k not in ky] + [y for y, k in zip(ys, ky) if k not in kx])

    OPS = {ast.Div: "truediv", ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitOr: "or", ast.BitAnd: "and"}

    def binop(self, op, a, b):
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            n = self.OPS.get(type(op))
            if n and isinstance(x, Stub) and pre + n + "__" in x.methods:
                return self.call(Native(x.methods[pre + n + "__"], n), [y], [])
        if isinstance(a, Seq) and isinstance(b, Seq) and a.kind in ("set", "list") and b.kind in ("set", "list"):      # sets and views of dicts
            m = {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference", ast.BitXor: "symmetric_difference"}.get(type(op))
            if m:
                return self.setop(m, a, b)
        if isinstance(op, ast.BitOr) and isinstance(a, Dct) and isinstance(b, Dct):
            d = self.dcopy(a)
            d.items.update(b.items)
            return d
        if isinstance(op, ast.Mod) and isinstance(a, str):
            xs = b.parts if isinstance(b, Seq) else [b]
            if all(isinstance(x, _PRIM) for x in xs):
                try:
                    return a % tuple(xs)
                except Exception:
                    pass
            return T("fmt%", a, *[self.fz(x) for x in xs])
        if isinstance(a, (str, bytes)) and isinstance(b, _PRIM) and not isinstance(b, (str, bytes, int)):
            raise Raised(Exc("TypeError"))
        return super().binop(op, a, b)

    def e_JoinedStr(self, e, env):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.format_spec is not None and v.conversion == -1 and isinstance(x, (str, int, float)):
                    spec = self.ev(v.format_spec, env)
                    if isinstance(spec, str):
                        ps.append(format(x, spec))
                        continue
                if v.format_spec is None and v.conversion in (-1, 115) and isinstance(x, (str, int, float)):
                    ps.append(str(x))
                elif v.format_spec is None and v.conversion == 114 and isinstance(x, _PRIM):
                    ps.append(repr(x))
                elif isinstance(x, T):
                    ps.append(x)
                elif v.conversion in (-1, 115) and (isinstance(x, (Obj, Exc)) or isinstance(x, Stub) and "__str__" in x.methods):
                    r = self.x_builtin("str", [x], {}, [])
                    ps.append(r if isinstance(r, (str, T)) else T("str"))
                else:
                    ps.append(T("str", T("ref", id(x))) if not isinstance(x, (Seq, Dct)) else T("str", self.fz(x)))
        if all(isinstance(p, str) for p in ps):
            return "".join(ps)
        return T("fstr", *ps)

    def truth(self, v):
        if isinstance(v, (Stub, Obj)):
            for n in ("__bool__", "__len__"):
                m = v.methods.get(n) if isinstance(v, Stub) else self.prog.method(v.cls, n, required=False)
                if m is not None:
                    r = m(self, [], []) if isinstance(v, Stub) else self.call(Bound(m, v, v.cls), [], [])
                    return self.truth(r)
            return True
        if isinstance(v, Val) or isinstance(v, tuple):
            return True
        if isinstance(v, Dct) and v.base is None:
            return bool(v.items)
        if isinstance(v, T) and v.op in ("enum", "cls", "ext", "stub", "ref", "tb"):
            return True
        return super().truth(v)

    # -- names
    def name(self, n, env):
        e = env
        while e is not None:
            if n in getattr(e, "globs", ()):
                break
            if n in e.loc:
                return e.loc[n]
            if e.func is not None and e.up is not None and not e.func.is_lambda and n in self.locals_of(e.func):
                raise Raised(Exc("UnboundLocalError", [n]), n)
            if e.func is not None and e.up is None and not e.func.is_lambda and n in self.locals_of(e.func):
                raise Raised(Exc("UnboundLocalError", [n]), n)
            e = e.up
        return self.glob(env.module, n)

    def locals_of(self, f):
        if not hasattr(f, "_locals"):
            out, glob = set(), set()
            st = list(f.node.body)
            while st:
                x = st.pop()
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    glob.update(x.names)
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(x.name)
                    continue
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(x, ast.AnnAssign) and x.value is None and isinstance(x.target, ast.Name):
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                st.extend(ast.iter_child_nodes(x))
            f._locals = out - glob
        return f._locals

    def s_Global(self, s, env):
        if not hasattr(env, "globs"):
            env.globs = set()
        env.globs.update(s.names)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name) and t.id in getattr(env, "globs", ()):
            self.mods[(env.module.name, t.id)] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (GenObj, Dct)) or isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, Obj) and any(b.endswith("NamedTuple") for b in self.prog.class_ext_bases(v.cls)) or isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, Seq) and v.kind == "set":
            v = Seq("list", list(self.iterate(v)))
        if isinstance(t, (ast.Tuple, ast.List)) and (v is None or isinstance(v, (int, float, Coro, Fut, Exc))):
            raise Raised(Exc("TypeError", ["cannot unpack"]), "unpack")
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            if o is None:
                raise Raised(Exc("TypeError", ["'NoneType' object does not support item assignment"]))
            self.setitem(o, i, v)
            return
        super().assign(t, v, env)

    def s_Import(self, s, env):
        super().s_Import(s, env)
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            v = env.loc.get(n)
            if isinstance(v, tuple) and v[0] == "ext" and v[1] in self.exts:
                if self.exts[v[1]] == "<missing>":
                    self.raise_("ImportError")
                env.loc[n] = self.exts[v[1]]

    s_ImportFrom = s_Import

    def s_ClassDef(self, s, env):
        env.loc[s.name] = c = ClassInfo(env.module, s)
        for f in c.methods.values():
            f.made_in = env

    def value_error(self, n):
        raise Raised(Exc("ValueError", [f"invalid literal for {n}"]), n)

    def s_FunctionDef(self, s, env):
        f = Func(env.module, None, s, env.func)
        c = Clo(f, env)
        v = c
        for d in reversed(s.decorator_list):
            dn = ast.unparse(d)
            if dn.split("(")[0].split(".")[-1] in ("contextmanager", "asynccontextmanager", "wraps", "staticmethod", "classmethod"):
                continue
            v = self.call(self.ev(d, env), [v], [])
        env.loc[s.name] = v

    s_AsyncFunctionDef = s_FunctionDef

    # -- statements
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, T) or isinstance(it, Seq) and not it.plain:
            return Interp.s_For(self, _Pre(s, it), env)
        self.loop_over(s, self.iterate_live(it), env)

    def iterate_live(self, v):
        """Iteration that notices mutation of the dict iterated over."""
        if isinstance(v, Dct) and v.base is None:
            ks = list(v.items)
            for i, k in enumerate(ks):
                if len(v.items) != len(ks):
                    raise Raised(Exc("RuntimeError", ["dictionary changed size during iteration"]))
                yield unkey(k)
            if len(v.items) != len(ks):
                raise Raised(Exc("RuntimeError", ["dictionary changed size during iteration"]))
            return
        if isinstance(v, Seq) and getattr(v, "view_of", None) is not None:
            src, n = v.view_of, len(v.view_of.items)
            for x in list(v.parts):
                if len(src.items) != n:
                    raise Raised(Exc("RuntimeError", ["dictionary changed size during iteration"]))
                yield x
            if len(src.items) != n:
                raise Raised(Exc("RuntimeError", ["dictionary changed size during iteration"]))
            return
        if isinstance(v, Seq) and v.kind == "list":
            i = 0
            while i < len(v.parts):
                yield v.parts[i]
                i += 1
            return
        yield from self.iterate(v)

    def aiterate(self, it):
        if isinstance(it, GenObj):
            nx = lambda: self.gen_next(it)  # noqa: E731
        else:
            ai = self.call(self.attr(it, "__aiter__"), [], [])
            nx = lambda: self.await_(self.call(self.attr(ai, "__anext__"), [], []))  # noqa: E731
        n = 0
        while True:
            try:
                x = nx()
            except Raised as r:
                if "StopAsyncIteration" in exc_names(self.prog, r.value):
                    return
                raise
            n += 1
            if n > 200:
                raise Stuck("infinite async iteration")
            yield x

    def s_AsyncFor(self, s, env):
        self.loop_over(s, self.aiterate(self.ev(s.iter, env)), env)

    def loop_over(self, s, it, env):
        try:
            for p in it:
                self.tick()
                self.assign(s.target, p, env)
                try:
                    self.block(s.body, env)
                except _Cont:
                    continue
        except _Brk:
            return
        self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        try:
            while self.truth(self.ev(s.test, env)):
                n += 1
                if n > 300:
                    raise Stuck("loop bound")
                try:
                    self.block(s.body, env)
                except _Cont:
                    continue
        except _Brk:
            return
        self.block(s.orelse, env)

    def with_items(self, items, body, env, is_async):
        if not items:
            body()
            return
        it = items[0]
        v = self.ev(it.context_expr, env)

        def inner():
            self.with_items(items[1:], body, env, is_async)
        if isinstance(v, CtxMan):
            self.run_cm(v, it, inner, env)
            return
        if isinstance(v, Stub) and v.kind == "suppress":
            try:
                inner()
            except Raised as r:
                ns = exc_names(self.prog, r.value)
                if not any(self.clsname(c) in ns for c in v.attrs["classes"]):
                    raise
            return
        if isinstance(v, T) or isinstance(v, tuple):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T("enter", self.fz(v)), env)
            inner()
            return
        en, ex = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
        aw = self.await_ if is_async else (lambda x: x)
        exitf = self.attr(v, ex)
        x = aw(self.call(self.attr(v, en), [], []))
        if it.optional_vars is not None:
            self.assign(it.optional_vars, x, env)
        try:
            inner()
        except Raised as r:
            e = self.excval(r.value)
            if self.killed:
                raise
            self.cur_push(e)
            try:
                sw = aw(self.call(exitf, [self.typeof(e), e, T("tb", self.fz(e))], []))
            finally:
                self.cur_pop()
            if not self.truth(sw):
                raise
            return
        except (_Ret, _Brk, _Cont):
            aw(self.call(exitf, [None, None, None], []))
            raise
        aw(self.call(exitf, [None, None, None], []))

    def run_cm(self, cm, it, inner, env):
        """@contextmanager: evaluate the body at the generator's yield."""
        st = {"n": 0, "ctl": None}

        def at_yield(v):
            st["n"] += 1
            if st["n"] > 1:
                raise Raised(Exc("RuntimeError", ["generator didn't stop"]))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            self.cms.append(None)
            try:
                inner()
            except (_Ret, _Brk, _Cont) as c:
                st["ctl"] = c
            finally:
                self.cms.pop()
            return None
        self.cms.append(at_yield)
        try:
            cm.body()
        except Raised as r:
            if st["n"] and {"StopIteration"} & set(exc_names(self.prog, r.value)):
                pass
            raise
        finally:
            self.cms.pop()
        if st["n"] == 0:
            raise Raised(Exc("RuntimeError", ["generator didn't yield"]))
        if st["ctl"] is not None:
            raise st["ctl"]

    @property
    def cms(self):
        fb = self.fiber
        if not hasattr(fb, "cms"):
            fb.cms = []
        return fb.cms

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.pattern(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare(ast.Is(), v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name is not None:
                self.assign(ast.Name(p.name, ast.Store()), v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            if p.patterns and not (len(p.patterns) == 1 and isinstance(p.cls, ast.Name) and p.cls.id in ("int", "str", "bytes", "float", "bool", "list", "tuple", "dict", "set")):
                raise Stuck("match by position")
            if not self.truth(self.x_builtin("isinstance", [v, self.ev(p.cls, env)], {}, [])):
                return False
            return all(self.pattern(x, v, env) for x in p.patterns) and \
                all(self.truth(self.x_builtin("hasattr", [v, n], {}, [])) and self.pattern(x, self.attr(v, n), env) for n, x in zip(p.kwd_attrs, p.kwd_patterns))
        if isinstance(v, T):
            raise Stuck("match of an unknown")
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, Seq) or v.kind not in ("list", "tuple") or not v.plain:
                return False
            st = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            n = len(p.patterns)
            if not st:
                return len(v.parts) == n and all(self.pattern(x, y, env) for x, y in zip(p.patterns, v.parts))
            i = st[0]
            tail = n - i - 1
            if len(v.parts) < n - 1 or not all(self.pattern(x, y, env) for x, y in zip(p.patterns[:i], v.parts)):
                return False
            if p.patterns[i].name:
                self.assign(ast.Name(p.patterns[i].name, ast.Store()), Seq("list", v.parts[i:len(v.parts) - tail]), env)
            return all(self.pattern(x, y, env) for x, y in zip(p.patterns[i + 1:], v.parts[len(v.parts) - tail:] if tail else []))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, Dct) or p.rest:
                return False
            for k, x in zip(p.keys, p.patterns):
                kk = self.key(self.ev(k, env))
                if kk not in v.items or not self.pattern(x, v.items[kk], env):
                    return False
            return True
        raise Stuck("pattern")

    def s_With(self, s, env):
        self.with_items(s.items, lambda: self.block(s.body, env), env, False)

    def s_AsyncWith(self, s, env):
        self.with_items(s.items, lambda: self.block(s.body, env), env, True)

    def cur_push(self, e):
        fb = self.fiber
        if not hasattr(fb, "excs"):
            fb.excs = []
        fb.excs.append(e)

    def cur_pop(self):
        self.fiber.excs.pop()

    @property
    def cur_exc(self):
        return getattr(self.fiber, "excs", None)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Raised as r:
                if self.killed:
                    raise
                r.value = self.excval(r.value)
                for h in s.handlers:
                    if self.matches(h, r.value, env):
                        self.cur_push(r.value)
                        try:
                            self.handler(h, r.value, env)
                        finally:
                            self.cur_pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (_Kill, Halt, Stuck, Deadlock):
            raise
        except BaseException as x:
            if s.finalbody and not self.killed:
                if isinstance(x, Raised):
                    self.cur_push(self.excval(x.value))
                try:
                    self.block(s.finalbody, env)
                finally:
                    if isinstance(x, Raised):
                        self.cur_pop()
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = self.cur_exc
            if not cur:
                raise Raised(Exc("RuntimeError", ["No active exception to reraise"]))
            raise Raised(cur[-1], f"{env.module.rel}:{s.lineno}")
        v = self.ev(s.exc, env)
        if isinstance(v, ClassInfo):
            v = self.construct(v, [], [])
        elif isinstance(v, ExtCls):
            v = Exc(v.name)
        elif isinstance(v, tuple) and v[0] in ("builtin", "ext"):
            v = Exc(v[1].split(".")[-1])
        v = self.excval(v)
        if s.cause is not None:
            c = self.ev(s.cause, env)
            if isinstance(v, (Exc, Obj)):
                v.attrs["__cause__"] = c
        elif isinstance(v, (Exc, Obj)) and self.cur_exc and self.cur_exc[-1] is not v:
            v.attrs.setdefault("__context__", self.cur_exc[-1])
        raise Raised(v, f"{env.module.rel}:{s.lineno}")

    def s_Assert(self, s, env):
        v = self.ev(s.test, env)
        if isinstance(v, T):
            return super().s_Assert(s, env)
        if not self.truth(v):
            raise Raised(Exc("AssertionError"), f"{env.module.rel}:{s.lineno}")

    def matches(self, h, v, env):
        if h.type is None:
            return True
        ns = exc_names(self.prog, v)
        for c in self.flatcls(self.ev(h.type, env)):
            n = self.clsname(c)
            if n == "CancelledError" and n in ns or n in ns:
                return True
        return False


class _Pre:
    """A statement/comprehension whose iterable is already evaluated."""

    def __init__(self, node, it):
        self.__dict__.update({f: getattr(node, f) for f in node._fields})
        if hasattr(node, "lineno"):
            self.lineno = node.lineno
        ph = ast.Name(id=" pre", ctx=ast.Load())
        ph._pre = it
        self._node = node
        if hasattr(node, "iter"):
            self.iter = _PreV(it)
        if hasattr(node, "generators"):
            g = node.generators[0]
            self.generators = [ast.comprehension(target=g.target, iter=_PreV(it), ifs=g.ifs, is_async=0)] + node.generators[1:]
        self._fields = node._fields


class _PreV(ast.expr):
    _fields = ()

    def __init__(self, v):
        self.v = v


def _e_PreV(self, e, env):
    return e.v


Machine.e__PreV = _e_PreV


class _NoGen:
    """A generator function evaluated for its body."""

    def __init__(self, f):
        self.__dict__["f"] = f

    is_generator = False

    def __getattr__(self, n):
        return getattr(self.f, n)


def env_root(env):
    return env


def _yield(self, e, env):
    v = self.ev(e.value, env) if e.value is not None else None
    cms = self.cms
    if cms and cms[-1] is not None:
        return cms[-1](v)
    return self.gen_yield(v)


Machine.e_Yield = _yield

_old_freeze = shapes.freeze


def run_scenarios(prog, scenario, max_paths=400, setup=None, limit=200000):
    """Yields (machine, outcome) for every combination of choices.
    outcome: ('ok', v) | ('raise', exc) | ('halt', why) | ('deadlock', why) | ('stuck', why)"""
    todo = [[]]
    n = 0
    while todo:
        plan = todo.pop()
        n += 1
        if n > max_paths:
            yield None, ("stuck", "too many paths")
            return
        it = Machine(prog, plan, limit=limit)
        if setup is not None:
            setup(it)
        try:
            r = ("ok", it.run(lambda: scenario(it)))
        except Raised as x:
            x.value = it.excval(x.value)
            r = ("raise", x)
        except Stuck as x:
            r = ("stuck", str(x))
        except Halt as x:
            r = ("halt", str(x))
        except Deadlock as x:
            r = ("deadlock", str(x))
        except (_Brk, _Cont):
            r = ("stuck", "loop control")
        except RecursionError:
            r = ("stuck", "recursion")
        for i in range(len(plan), len(it.taken)):
            key, c, k = it.taken[i]
            for alt in range(c + 1, k):
                todo.append([x[1] for x in it.taken[:i]] + [alt])
        yield it, r

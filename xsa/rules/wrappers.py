"""C33: an asynchronous wrapper gives what the thing it wraps gives, by abstract interpretation of the wrappers of files
and events and of the cache of coroutine functions."""
from ..shapes import Env
from .records import *
from .stopping import nap

# what blocks, and is therefore done by the executor
FILE = ("close", "flush", "isatty", "read", "read1", "readinto", "readline", "readlines", "seek", "seekable", "tell", "truncate", "writable", "write", "writelines")
EVENT = ("wait",)


def wrappers(ctx: Ctx):
    base = ctx.prog.module("aio.base")
    for mod, name, off, on, props in (("aio.file", "AioFileObject", FILE, ("fileno", "readable"), ("closed", "name", "mode")), ("aio.parallelism", "AioEvent", EVENT, ("set", "is_set", "clear"), ())):
        _wrapper(ctx, base, ctx.prog.module(mod).defs[name], off, on, props)
    _iteration(ctx, ctx.prog.module("aio.file").defs["AioFileObject"])
    m = ctx.prog.module("aio.lru")
    _cached(ctx, m)
    _shared(ctx, m)
    _bounded(ctx, m)
    _closing(ctx, m)


def decorated(it, cls):
    """the class as its decorators make it"""
    it.stubs["property"] = lambda it, a, k: Stub("property", {"fget": a[0]}, kind="property")
    env = Env(None, {}, None, None, cls.module)
    for d in reversed(cls.node.decorator_list):
        r = it.call(it.ev(d, env), [cls], [])
        it.claim(r is cls, "decorating replaces the class")
    return cls


def executor(it, ran, kind):
    ex = Stub("executor")

    def run(it, a, k):
        it.claim(a[0] is (ex if kind == "given" else None), "an operation is run by another executor than the one given")

        def go():
            nap(it, 1)
            ran.append("in")
            try:
                return it.call(a[1], a[2:], [])
            finally:
                ran.append("out")
        return Coro(go, "executor")
    return ex, Stub("loop", {}, {"run_in_executor": run})


def file_stub(it, ran, calls, fails=()):
    f = Stub("file")

    def op(it, n):
        def call(it, a, k):
            calls.append((n, list(a), list(k), ran.count("in") > ran.count("out")))
            if n in fails:
                it.raise_("OSError")
            return T("result", n)
        return Native(call, n)
    f.default = op
    return f


def _wrapper(ctx, base, cls, off, on, props):
    f = ctx.method(base.defs["AioBase"], "__init__")

    def go(it):
        decorated(it, cls)
        ran, calls = [], []
        kind = outcome(it, "executor", "default", "given")
        ex, loop = executor(it, ran, kind)
        fl = file_stub(it, ran, calls)
        bad = file_stub(it, ran, calls, off + on)
        for p in props:
            fl.attrs[p] = T("value", p)
            bad.attrs[p] = T("other value", p)
        form = outcome(it, "loop", "given", "current")
        it.stubs["asyncio.get_event_loop"] = it.stubs["asyncio.get_running_loop"] = lambda it, a, k: loop
        kw = ([("loop", loop)] if form == "given" else []) + ([("executor", ex)] if kind == "given" else [])
        w = it.call(cls, [fl], kw)
        o = it.call(cls, [bad], kw)
        twice = outcome(it, "wrapped twice", "no", "in the same way", "the first time without an executor")
        if twice != "no":
            if "without" in twice:
                w, o = it.call(cls, [fl], [("loop", loop)]), it.call(cls, [bad], [("loop", loop)])
            w, o = it.call(cls, [w], kw), it.call(cls, [o], kw)
        for n in off + on:
            del calls[:], ran[:]
            x, y = T("x", n), T("y", n)

            def run(obj):
                v = it.call(it.attr(obj, n), [x], [("k", y)])
                return it.await_(v) if n in off else v
            st, v = attempt(it, lambda: run(w))
            it.claim(st == "ok" and v == T("result", n), f"{n} returns something else than the wrapped object does")
            it.claim(len(calls) == 1 and calls[0][:3] == (n, [x], [("k", y)]), f"{n} does not call the operation of the wrapped object once, as it was called")
            if n in off:
                it.claim(bool(calls) and calls[0][3], f"{n} blocks the event loop")
            st, v = attempt(it, lambda: run(o))
            it.claim(st == "raise" and err_is(it, v, "OSError"), f"a failing {n} does not fail")
        for p in props:
            it.claim(it.attr(w, p) == T("value", p) and it.attr(o, p) == T("other value", p), f"{p} is not the one of the wrapped object")
            fl.attrs[p] = T("new value", p)
            it.claim(it.attr(w, p) == T("new value", p), f"{p} is not the present one of the wrapped object")
        if cls.name == "AioEvent":
            made = []
            it.stubs["threading.Event"] = lambda it, a, k: made.append(file_stub(it, ran, calls)) or made[-1]
            a, b = it.call(cls, [], kw), it.call(cls, [], kw)
            it.claim(len(made) == 2, "events without an event of their own share one")
            del calls[:]
            it.call(it.attr(a, "set"), [], [])
            it.claim([c[0] for c in calls] == ["set"], "an event of its own is not used")
    Sc(ctx, "wrap", f).run(f"operations of {cls.name}", go)


def _iteration(ctx, cls):
    f = ctx.method(cls, "__anext__")

    def go(it):
        decorated(it, cls)
        ran = []
        ex, loop = executor(it, ran, "default")
        binary = outcome(it, "lines are", "text", "bytes")
        lines = ["a\n", "\n", "0\n", "last"] if binary == "text" else [b"a\n", b"\n", b"0", b"last"]
        n = outcome(it, "lines", 0, 1, 4)
        fails = outcome(it, "reading", "works", "fails at the end")
        left, closed = list(lines[:n]), []

        def readline(it, a, k):
            if not left and fails != "works":
                it.raise_("OSError")
            return left.pop(0) if left else lines[0][:0]
        how = outcome(it, "closing", "works", "fails")

        def close(it, a, k):
            closed.append(1)
            if how == "fails":
                it.raise_("ValueError")
        fl = Stub("file", {}, {"readline": readline, "close": close})
        w = it.call(cls, [fl], [("loop", loop)])
        got = []

        def read():
            for x in it.aiterate(w):
                got.append(x)
                if len(got) > n + 3:
                    break
        st, v = attempt(it, read)
        it.claim(got == lines[:n], "iteration yields other lines than the file has")
        it.claim(st == "ok" if fails == "works" else st == "raise" and err_is(it, v, "OSError"), "the end of the iteration is not the end of the file")
        r = it.await_(it.call(it.attr(w, "__aenter__"), [], []))
        it.claim(r is w and not closed, "the context is not the file")
        err = outcome(it, "left with", "no error", "an error")
        e = Exc("KeyError", []) if err == "an error" else None
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(w, "__aexit__"), [("builtin", "KeyError") if e else None, e, None], [])))
        it.claim(len(closed) == 1, "leaving the context does not close the file once")
        it.claim(st == "ok" and not it.truth(v) if how == "works" else st == "raise" and err_is(it, v, "ValueError"), "leaving the context hides an error")
    Sc(ctx, "wrap", f).run("iterating and leaving a file", go)


# -- the cache of coroutine functions
class Cache:
    def __init__(self, it, m, how=(), **kw):
        """how: (argument, nth call with it) -> error of that call"""
        self.it, self.m, self.how = it, m, dict(how)
        self.runs, self.ended = [], []
        it.stubs["functools._make_key"] = self.key
        it.stubs["functools._CacheInfo"] = lambda it, a, k: Stub("info", dict(zip(("hits", "misses", "maxsize", "currsize"), a)))
        it.mods[(m.name, "_all_wrapped")] = Seq("set", [])
        self.gate = True

        def fn(it, a, k):
            n = sum(1 for r in self.runs if r == (list(a), list(k)))
            self.runs.append((list(a), list(k)))
            i = len(self.runs)
            x = a[0] if a else None

            def run():
                try:
                    nap(it, 1)
                    e = self.how.get((x, n)) if len(a) == 1 and not k else None
                    if e:
                        it.raise_(e)
                    return T("value", x, i)
                finally:
                    self.ended.append(x)
            return Coro(run, "computation")
        self.fn = Native(fn, "fn")
        self.fn.is_async = True
        self.wrapped = it.call(m.defs["alru_cache"], [self.fn], list(kw.items()))

    @staticmethod
    def key(it, a, k):
        args, kw, typed = a
        typed = it.truth(typed)
        vs = list(it.parts_of(args)) + [x for p in items_of(kw) for x in p]
        return Seq("tuple", [repr((type(v).__name__, v)) if typed else repr(float(v) if isinstance(v, (int, float)) else v) for v in vs] + [len(it.parts_of(args))])

    def call(self, *a, **k):
        return attempt(self.it, lambda: self.it.await_(self.it.call(self.wrapped, list(a), list(k.items()))))

    def task(self, *a, **k):
        return self.it.spawn(self.it.call(self.wrapped, list(a), list(k.items())), f"caller of {a}")

    def do(self, name, *a, **k):
        return self.it.call(self.it.attr(self.wrapped, name), list(a), list(k.items()))

    def value(self, st):
        """argument the value was computed of"""
        return st[1].a[0] if st[0] == "ok" and isinstance(st[1], T) and st[1].op == "value" else None


def _cached(ctx, m):
    f = m.defs["alru_cache"]

    def go(it):
        how = outcome(it, "first computation", "works", "KeyError", "CancelledError")
        keep = outcome(it, "cache_exceptions", True, False)
        typed = outcome(it, "typed", False, True)
        c = Cache(it, m, {(1, 0): how} if how != "works" else {}, cache_exceptions=keep, typed=typed)
        r1 = c.call(1)
        it.claim(c.value(r1) == 1 if how == "works" else r1[0] == "raise" and err_is(it, r1[1], how), "a computation does not give what the function gives")
        r2 = c.call(1)
        if how == "works":
            it.claim(r2 == r1 and len(c.runs) == 1, "a value that is kept is computed again")
        elif how == "KeyError" and keep:
            it.claim(r2[0] == "raise" and err_is(it, r2[1], how) and len(c.runs) == 1, "an error that is to be kept is not kept")
        else:
            it.claim(c.value(r2) == 1 and len(c.runs) == 2, "an error that is not to be kept is kept" if how == "KeyError" else "a computation that was cancelled is given as a result")
            r3 = c.call(1)
            it.claim(r3 == r2 and len(c.runs) == 2, "a value computed after an error is not kept")
        n = len(c.runs)
        for a, k in (([2], {}), ([1, 2], {}), ([], {"k": 1}), ([1], {"k": 1}), ([1], {"k": 2})):
            r = c.call(*a, **k)
            n += 1
            it.claim(c.value(r) == (a[0] if a else None) and len(c.runs) == n and c.runs[-1] == (a, list(k.items())), "a value computed of other arguments is given")
        r = c.call(1.0)
        it.claim(len(c.runs) == n + (1 if typed else 0), "arguments of different types are not told apart as asked for")
        it.claim(it.attr(it.call(it.attr(c.wrapped, "cache_info"), [], []), "currsize") == (7 if typed else 6), "the cache does not tell how many results it keeps")
        n = len(c.runs)
        it.claim(it.truth(c.do("invalidate", 2)) and not it.truth(c.do("invalidate", 99)), "invalidating does not tell whether there was a result")
        c.call(1), c.call(1, 2)
        it.claim(len(c.runs) == n, "invalidating one result forgets another")
        c.call(2)
        it.claim(len(c.runs) == n + 1, "an invalidated result is given")
        c.do("cache_clear")
        c.call(1), c.call(2)
        it.claim(len(c.runs) == n + 3, "a result is given after all were forgotten")
    Sc(ctx, "cache", f).run("results of a cached function", go, max_paths=200)


def _shared(ctx, m):
    f = m.defs["alru_cache"]

    def go(it):
        how = outcome(it, "computation", "works", "KeyError")
        cut = outcome(it, "cancelled", None, 0, 1, 2)
        late = outcome(it, "second caller", "at once", "in between")
        clear = outcome(it, "meanwhile", "nothing", "the cache is cleared", "the result is invalidated")
        c = Cache(it, m, {(1, 0): how} if how != "works" else {})
        ts = [c.task(1)]
        nap(it, 0 if late == "at once" else 0.3)
        ts += [c.task(1), c.task(1)]
        nap(it, 0.2)
        it.claim(len(c.runs) == 1, "callers at one time do not share the computation")
        if cut is not None:
            it.task_cancel(ts[cut])
        if clear == "the cache is cleared":
            c.do("cache_clear")
        elif clear != "nothing":
            c.do("invalidate", 1)
        nap(it, 3)
        for i, t in enumerate(ts):
            it.claim(t.done, "a caller of a cached function is not answered")
            if not t.done:
                continue
            if i == cut:
                it.claim(t.state == "cancelled", "a caller cannot be cancelled")
            elif how == "works":
                it.claim(t.state == "done" and t.value == T("value", 1, 1), "a caller does not get what was computed" if cut is None else "cancelling one caller takes the result from another")
            else:
                it.claim(t.state == "error" and err_is(it, t.value, how), "a caller does not get the error of the computation")
        it.claim(not it.task_errors, "a callback fails")
        r = c.call(1)
        if clear == "nothing":
            it.claim(len(c.runs) == 1, "a value that is kept is computed again")
        else:
            it.claim(len(c.runs) == 2 and c.value(r) == 1, "a result is given after it was forgotten")
    Sc(ctx, "cache", f).run("callers at one time", go, max_paths=400)


def _bounded(ctx, m):
    f = m.defs["alru_cache"]

    def go(it):
        size = outcome(it, "maxsize", None, 0, 1, 2, 3)
        use = outcome(it, "used again", *([None, 1, 2] if size not in (0, 1) else [None]))
        c = Cache(it, m, maxsize=size)
        ref, want = [], 0
        seq = [1, 2] + ([use] if use else []) + [3, 1, 4, 2, 3]
        for at, x in enumerate(seq):
            r = c.call(x)
            it.claim(c.value(r) == x, "a value computed of other arguments is given")
            if x in ref:
                ref.remove(x)
            else:
                want += 1
            ref.append(x)
            if size is not None and len(ref) > size:
                ref.pop(0)
            it.claim(len(c.runs) <= want, "a result that is among the last ones used is not kept")
            it.claim(len(c.runs) >= want, "more results are kept than asked for")
            if len(c.runs) != want:
                return
            info = it.call(it.attr(c.wrapped, "cache_info"), [], [])
            it.claim(it.attr(info, "currsize") == len(ref) and it.attr(info, "misses") == want and it.attr(info, "hits") == at + 1 - want and it.attr(info, "maxsize") == size, "the cache does not tell what it keeps")
    Sc(ctx, "cache", f).run("results that are kept", go)

    def overlap(it):
        size = outcome(it, "maxsize", 1, 2, 3)
        c = Cache(it, m, maxsize=size)
        ts = [c.task(x) for x in (1, 2, 3, 4)]
        nap(it, 5)
        it.claim([t.value.a[0] if t.state == "done" and isinstance(t.value, T) else None for t in ts] == [1, 2, 3, 4], "callers at one time do not get the values of their arguments")
        n = len(c.runs)
        last = [1, 2, 3, 4][-size:]
        for x in last:
            c.call(x)
        it.claim(len(c.runs) == n, "a result that is among the last ones computed is not kept")
        c.call(4 - size)
        it.claim(len(c.runs) == n + 1, "more results are kept than asked for")
    Sc(ctx, "cache", f).run("results that are kept of callers at one time", overlap)


def _closing(ctx, m):
    f = m.defs["alru_cache"]

    def go(it):
        cancel = outcome(it, "cancel", False, True)
        c = Cache(it, m)
        c.call(2)
        t = c.task(1)
        nap(it, 0.5)
        t0 = it.now
        st, v = attempt(it, lambda: it.await_(c.do("close", cancel=cancel)))
        it.claim(st == "ok", f"closing a cache fails ({cname(v) or v})")
        it.claim(1 in c.ended, "closing a cache leaves a computation running")
        nap(it, 0.1)
        it.claim(t.done and (t.state == "cancelled" if cancel else t.value == T("value", 1, 2)), "a caller is not answered when the cache is closed")
        st, v = attempt(it, lambda: it.await_(it.call(c.wrapped, [2], [])))
        it.claim(st == "raise" and err_is(it, v, "RuntimeError") and len(c.runs) == 2, "a closed cache still answers")
        st, v = attempt(it, lambda: it.await_(c.do("close")))
        it.claim(st == "raise" and err_is(it, v, "RuntimeError"), "a closed cache is closed again")
        st, v = attempt(it, lambda: c.do("open"))
        it.claim(st == "ok", "a closed cache cannot be opened again")
        r = c.call(2)
        it.claim(c.value(r) == 2 and len(c.runs) == 3, "a result is given after the cache was closed")
        st, v = attempt(it, lambda: c.do("open"))
        it.claim(st == "raise" and err_is(it, v, "RuntimeError"), "an open cache is opened again")
        for cancel2 in (cancel, not cancel):
            d = Cache(it, m)
            if cancel2 == cancel:
                d.call(1)
            attempt(it, lambda: it.await_(d.do("close", cancel=cancel2)))
            n = len(d.runs)
            st, v = d.call(1)
            it.claim(st == "raise" and len(d.runs) == n, "a cache closed while nothing is computed still answers")
        plain = Native(lambda it, a, k: None, "plain")
        st, v = attempt(it, lambda: it.call(m.defs["alru_cache"], [plain], []))
        it.claim(st == "raise" and err_is(it, v, "RuntimeError"), "a function that is no coroutine function is accepted")
    Sc(ctx, "cache", f).run("closing a cache", go)

"""C04: the methods of an actor exclude one another, by abstract interpretation of every way of invoking a method in
pairs, with methods that report every moment at which they run."""
from ..machine import GenObj
from ..shapes import Bound
from .results import asyncgens, exc
from .stopping import nap
from .records import *

LOCAL = ("local call", "local send", "local tell", "local batch", "local delayed tell")
REMOTE = ("remote call", "remote batch")


class Act:
    """An actor whose methods are stubs of the environment."""

    def __init__(self, it, cname_="_Actor", uid=A):
        self.it = it
        core = it.prog.module("core")
        self.cls = core.defs[cname_]
        self.o = Obj(self.cls, {"_uid": uid, "_address": MAIN})
        init = it.prog.method(self.cls, "__cinit__")
        it.call(Bound(init, self.o, self.cls), [], [])
        self.inside, self.ran = [], []
        self.core = core

    def method(self, name, kind, body, hint=None, actor_hint=False):
        """kind: sync, async or generator; body(name, args, kw) is what it does"""
        it = self.it
        protected = not hint and not actor_hint and self.cls.name == "_Actor"

        def enter():
            if protected:
                it.claim(not self.inside, "two methods of an actor that exclude one another run at the same time")
                self.inside.append(name)

        def leave():
            if protected:
                self.inside.remove(name)

        def run(a, k):
            enter()
            try:
                self.ran.append((name, tuple(freeze(x) for x in a), tuple((n, freeze(v)) for n, v in k)))
                if kind != "sync":
                    it.pause()
                return body(name, a, k)
            finally:
                leave()

        def step(a, k):
            """a generator: runs between its yields"""
            enter()
            try:
                self.ran.append((name, tuple(freeze(x) for x in a), tuple((n, freeze(v)) for n, v in k)))
                it.pause()
                leave()
                try:
                    it.gen_yield(Coro(lambda: nap(it, 1), "yielded"))
                finally:
                    enter()
                it.pause()
                r = body(name, a, k)
            finally:
                leave()
            exc(it, "Return", r)

        def call(it, a, k):
            if kind == "sync":
                return run(a, k)
            if kind == "generator":
                return GenObj(name, lambda: step(a, k), True)
            return Coro(lambda: run(a, k), name)

        def lists(it, a, k):
            al, kl = list(it.iterate(a[0])), list(it.iterate(a[1]))
            al = [list(it.iterate(x)) for x in al]
            kl = [items_of(x) for x in kl]
            if kind == "sync":
                return Seq("list", [run(x, y) for x, y in zip(al, kl)])
            return Coro(lambda: Seq("list", [run(x, y) for x, y in zip(al, kl)]), name)

        def batch(it, a, k):
            ds = [(list(it.iterate(d.attrs["args"])), items_of(d.attrs["kwargs"])) for d in a]
            if kind == "sync":
                return Seq("list", [run(x, y) for x, y in ds])
            return Coro(lambda: Seq("list", [run(x, y) for x, y in ds]), name)
        mark = {"__self__": self.o}
        m = Stub(f"method {name}", dict(mark), {"__call__": call, "call_with_lists": lists})
        m.attrs["batch"] = Stub(f"batch of {name}", dict(mark), {"__call__": batch})
        if hint:
            r = it.call(self.core.defs["no_lock"], [m], [])
            it.claim(r is m, "marking a method as lock free gives another method")
        if actor_hint:
            it.call(self.core.defs["no_lock"], [self.o], [])
        self.o.attrs[name] = m
        return m

    def local(self, name):
        ref = Stub("local reference", {"_actor_weakref": Native(lambda it, a, k: self.o, "weakref"), "uid": A})
        return Obj(self.core.defs["LocalActorRefMethod"], {"_local_actor_ref": ref, "_method_name": name})

    def invoke(self, way, name, args=("x",), kw=(("k", "y"),)):
        """a coroutine of the invocation"""
        it = self.it
        if way.startswith("local"):
            m = self.local(name)
            if way == "local batch":
                d = Stub("delayed", {"args": Seq("tuple", list(args)), "kwargs": Dct(list(kw))})
                return it.call(it.attr(m, "batch"), [d], [])
            if way == "local delayed tell":
                return it.call(it.attr(m, "tell_delay"), list(args), [("delay", 0)] + list(kw))
            n = {"local call": "__call__", "local send": "send", "local tell": "tell"}[way]
            return it.call(it.attr(m, n), list(args), list(kw))
        if way == "remote call":
            msg = Seq("tuple", [name, 0, Seq("tuple", list(args)), Dct(list(kw))])
        else:
            msg = Seq("tuple", [name, 1, Seq("tuple", [Seq("list", [Seq("tuple", list(args))]), Seq("list", [Dct(list(kw))])]), Dct([])])
        return it.call(it.attr(self.o, "__on_receive__"), [msg], [])

    def go(self, way, name, **kw):
        """a task of the invocation"""
        it = self.it
        r = self.invoke(way, name, **kw)
        return r if isinstance(r, Task_) else it.spawn(r, f"{way} of {name}")


from ..machine import Task as Task_  # noqa: E402


def names_(it, v):
    from ..machine import exc_names
    return exc_names(it.prog, v)


def mutex(ctx: Ctx):
    cls = ctx.prog.module("core").defs["_BaseActor"]
    f = ctx.method(cls, "__on_receive__")
    lm = ctx.method(ctx.prog.module("core").defs["LocalActorRefMethod"], "__call__")
    ways = LOCAL + REMOTE

    def prepare(it):
        asyncgens(it)
        it.stubs["asyncio.get_running_loop"] = lambda it, a, k: it.loop()

    def pairs(it, w1):
        prepare(it)
        w2 = outcome(it, "second", *ways)
        k1 = outcome(it, "first method", *(("async",) if "batch" in w1 else ("async", "generator")))
        k2 = outcome(it, "second method", *(("sync", "async") if "batch" in w2 else ("sync", "async", "generator")))
        end = outcome(it, "the first ends with", "value", "error", "cancelled" if "tell" not in w1 else "value again")
        a = Act(it)
        gate = it.call(("ext", "asyncio.Event"), [], [])

        def body(n, args, kw):
            if n == "one":
                it.await_(it.call(it.attr(gate, "wait"), [], []))
                if end == "error":
                    it.raise_("ValueError", "x")
            return f"value of {n}"
        a.method("one", k1, body)
        a.method("two", k2, body)
        t1 = a.go(w1, "one")
        nap(it, 5)
        it.claim([x[0] for x in a.ran] == ["one"], "a method that is called does not run")
        t2 = a.go(w2, "two")
        nap(it, 5)
        it.claim([x[0] for x in a.ran] == ["one"], "two methods of an actor that exclude one another run at the same time")
        if end == "cancelled":
            it.task_cancel(t1)
        else:
            it.call(it.attr(gate, "set"), [], [])
        nap(it, 9)
        for n, w, t in (("one", w1, t1), ("two", w2, t2)):
            it.claim(t.done, "a call never ends")
            mine = [x for x in a.ran if x[0] == n]
            it.claim(len(mine) == 1, "a method does not run once per call")
            it.claim(all(x[1:] == (("x",), (("k", "y"),)) for x in mine), "a method runs with other arguments than it was called with")
            if not t.done or "tell" in w:
                continue
            if n == "two" or end.startswith("value"):
                v = t.value
                if t.state == "done" and "batch" in w:
                    v = v.parts[0] if isinstance(v, Seq) and len(v.parts) == 1 else None
                it.claim(t.state == "done" and freeze(v) == f"value of {n}", "a call does not give what its method returned")
            elif end == "error":
                it.claim(t.state == "error" and "ValueError" in names_(it, t.value), "the error of a method is not raised")
            else:
                it.claim(t.state == "cancelled", "a cancelled call is not cancelled")
        it.claim(not a.inside, "a method is left running")
    for w in ways:
        Sc(ctx, "mutual-exclusion", f if "remote" in w else lm).run(f"{w}, then another call", lambda it, w=w: pairs(it, w), max_paths=3000)

    def handed(it, w1):
        """a method hands back calls it made: they are awaited while other methods may run"""
        prepare(it)
        form = outcome(it, "the method hands back", "a call", "a tuple with a call", "a tuple with two calls")
        a = Act(it)
        gate = it.call(("ext", "asyncio.Event"), [], [])

        def made(n):
            def run():
                it.await_(it.call(it.attr(gate, "wait"), [], []))
                return f"answer {n}"
            return Coro(run, f"call {n}")

        def out(it, a_, k):
            def run():
                it.pause()
                return made(0) if form == "a call" else Seq("tuple", [made(0), "plain"] if "with a" in form else [made(0), made(1)])
            return Coro(run, "one")
        a.method("one", "async", lambda n, args, kw: None)
        m = a.o.attrs["one"]
        m.methods["__call__"] = m.methods["call_with_lists"] = m.attrs["batch"].methods["__call__"] = out
        a.method("two", "async", lambda n, args, kw: "value of two")
        t1 = a.go(w1, "one")
        nap(it, 3)
        t2 = a.go(outcome(it, "second", "local call", "remote call"), "two")
        nap(it, 3)
        it.claim(t2.state == "done", "the actor stays locked while what its method handed back is awaited")
        it.call(it.attr(gate, "set"), [], [])
        nap(it, 3)
        it.claim(t1.done and t2.done, "a call never ends")
        if t1.done and "tell" not in w1:
            want = "answer 0" if form == "a call" else ("answer 0", "plain") if "with a" in form else ("answer 0", "answer 1")
            v = t1.value
            got = tuple(freeze(x) for x in v.parts) if isinstance(v, Seq) else v
            it.claim(t1.state == "done" and got == want, "a call does not give what the calls its method handed back gave")
    for w in ways:
        Sc(ctx, "mutual-exclusion", f if "remote" in w else lm).run(f"{w} that hands back calls", lambda it, w=w: handed(it, w), max_paths=200)

    def generators(it):
        """two generators and a plain method, all interleaved"""
        prepare(it)
        a = Act(it)
        w = [outcome(it, f"call {i}", "local call", "remote call") for i in range(2)]
        bad = outcome(it, "the first ends with", "value", "error")

        def body(n, args, kw):
            it.pause()
            if n == "one" and bad == "error":
                it.raise_("ValueError", "x")
            return f"value of {n}"
        a.method("one", "generator", body)
        a.method("two", "generator", body)
        a.method("three", "async", body)
        ts = [a.go(w[0], "one"), a.go(w[1], "two"), a.go("remote call", "three")]
        nap(it, 0.5)
        it.claim({x[0] for x in a.ran} == {"one", "two", "three"}, "the actor stays locked while it waits for what its generator yielded")
        nap(it, 9)
        it.claim(all(t.done for t in ts), "a call never ends")
        it.claim(ts[0].state == ("error" if bad == "error" else "done") and ts[1].state == "done" and ts[2].state == "done", "a call does not end as its method does")
    Sc(ctx, "mutual-exclusion", ctx.method(cls, "_run_actor_async_generator")).run("generators", generators)

    def yielded(it):
        """what a method returns is awaited with the lock released"""
        prepare(it)
        a = Act(it)
        w = outcome(it, "call", "local call", "local send", "local tell", "remote call")
        shape = outcome(it, "the method returns", "an awaitable", "a tuple of awaitables")
        gate = it.call(("ext", "asyncio.Event"), [], [])

        def wait():
            it.await_(it.call(it.attr(gate, "wait"), [], []))
            return "resolved"

        def body(n, args, kw):
            if n == "two":
                return "value"
            c = lambda: it.spawn(Coro(wait, "awaitable"), "awaitable")  # noqa: E731
            return Seq("tuple", [c(), c()]) if shape.startswith("a tuple") else c()
        a.method("one", outcome(it, "method", "sync", "async"), body)
        a.method("two", "async", body)
        t1 = a.go(w, "one")
        nap(it, 1)
        t2 = a.go(outcome(it, "then", "local call", "remote call"), "two")
        nap(it, 1)
        it.claim(t2.done, "the actor stays locked while the awaitables its method returned are resolved")
        it.call(it.attr(gate, "set"), [], [])
        nap(it, 1)
        it.claim(t1.done, "a call never ends")
        if t1.done and "tell" not in w:
            want = Seq("tuple", ["resolved"] * 2) if shape.startswith("a tuple") else "resolved"
            it.claim(t1.state == "done" and freeze(t1.value) == freeze(want), "the awaitables a method returned are not resolved")
    Sc(ctx, "lock-released-while-waiting", f).run("what a method returns", yielded)

    def unmarked(it):
        """a mark that is not set does not free a method of the lock"""
        prepare(it)
        a = Act(it)
        gate = it.call(("ext", "asyncio.Event"), [], [])
        mark = outcome(it, "marked", "method", "actor")
        value = outcome(it, "mark", False, None)
        w1, w2 = outcome(it, "first", "local call", "remote call"), outcome(it, "second", "local call", "remote call", "remote batch")
        a.method("one", "async", lambda n, args, kw: it.await_(it.call(it.attr(gate, "wait"), [], [])))
        m = a.method("two", "async", lambda n, args, kw: "value")
        it.setattr(m if mark == "method" else a.o, it.glob(it.prog.module("core"), "NO_LOCK_ATTRIBUTE_HINT"), value)
        t1 = a.go(w1, "one")
        nap(it, 1)
        t2 = a.go(w2, "two")
        nap(it, 1)
        it.claim(not t2.done, "a method that is not lock free does not wait for its turn")
        it.call(it.attr(gate, "set"), [], [])
        nap(it, 2)
        it.claim(t1.done and t2.done, "a call never ends")
    Sc(ctx, "lock-free", f).run("a mark that is not set", unmarked)

    def free(it):
        """lock free methods, actors and stateless actors"""
        prepare(it)
        how = outcome(it, "lock free", "the second method", "the first method", "the actor", "a stateless actor", "another actor's method")
        a = Act(it, "_StatelessActor" if how == "a stateless actor" else "_Actor")
        b = Act(it, uid=B) if how.startswith("another") else a
        gate = it.call(("ext", "asyncio.Event"), [], [])
        w1 = outcome(it, "first", "local call", "local tell", "remote call")
        w2 = outcome(it, "second", "local call", "local send", "remote call", *(["remote batch"] if how != "the first method" else []))
        k2 = outcome(it, "second method", "sync", "async")

        def body(n, args, kw):
            if n == "one":
                it.await_(it.call(it.attr(gate, "wait"), [], []))
            return f"value of {n}"
        a.method("one", "async", body, hint=how == "the first method", actor_hint=how == "the actor")
        b.method("two", k2, body, hint=how == "the second method", actor_hint=how == "the actor")
        t1 = a.go(w1, "one")
        nap(it, 1)
        t2 = b.go(w2, "two")
        nap(it, 1)
        it.claim(t2.done, "a call waits for another one although they do not exclude one another")
        it.call(it.attr(gate, "set"), [], [])
        nap(it, 1)
        for t, w, n in ((t1, w1, "one"), (t2, w2, "two")):
            it.claim(t.done, "a call never ends")
            if t.done and w in ("local call", "local send", "remote call"):
                it.claim(t.state == "done" and freeze(t.value) == f"value of {n}", "a call does not give what its method returned")
    Sc(ctx, "lock-free", f).run("methods that do not exclude one another", free)

    def fails(it):
        """the lock is released when acquiring, running or resolving fails; the next call runs"""
        prepare(it)
        a = Act(it)
        w = outcome(it, "call", *ways)
        kind = outcome(it, "method", *(("sync", "async") if "batch" in w else ("sync", "async", "generator")))
        e = outcome(it, "ends by", "ValueError", "KeyboardInterrupt", "CancelledError", "SystemExit")

        def body(n, args, kw):
            if n == "one":
                it.raise_(e, "x")
            return "value"
        a.method("one", kind, body)
        a.method("two", "async", body)
        try:
            t1 = a.go(w, "one")
        except Raised as x:
            it.claim(e in names_(it, it.excval(x.value)), "another error than the method's is raised")
            t1 = None
        nap(it, 2)
        t2 = a.go("remote call", "two")
        nap(it, 2)
        it.claim(t2.state == "done", "a method that fails leaves the actor locked")
        it.claim(t1 is None or t1.done, "a call never ends")
        if t1 is not None and t1.done and "tell" not in w:
            it.claim(t1.state in ("error", "cancelled"), "the error of a method is not raised")
    Sc(ctx, "lock-released", f).run("a method that fails", fails)

    def waiting(it):
        """a call cancelled while it waits for the lock"""
        prepare(it)
        a = Act(it)
        gate = it.call(("ext", "asyncio.Event"), [], [])

        def body(n, args, kw):
            if n == "one":
                it.await_(it.call(it.attr(gate, "wait"), [], []))
            return "value"
        for n in ("one", "two", "three"):
            a.method(n, "async", body)
        t1 = a.go("local call", "one")
        nap(it, 1)
        t2 = a.go(outcome(it, "waiting", "local call", "remote call", "remote batch", "local batch"), "two")
        nap(it, 1)
        it.task_cancel(t2)
        nap(it, 1)
        t3 = a.go("remote call", "three")
        nap(it, 1)
        it.claim(not t3.done, "two methods of an actor that exclude one another run at the same time")
        it.call(it.attr(gate, "set"), [], [])
        nap(it, 2)
        it.claim(t1.state == "done" and t3.state == "done" and t2.state == "cancelled", "a call cancelled while it waits for its turn disturbs the others")
        it.claim([x[0] for x in a.ran] == ["one", "three"], "a call cancelled while it waits for its turn runs")
    Sc(ctx, "mutual-exclusion", f).run("a call cancelled while it waits for its turn", waiting)

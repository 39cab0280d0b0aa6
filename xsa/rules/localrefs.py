"""C29: a method called through a reference to an actor of this process, by abstract interpretation of the reference, its
methods and the wrapper over every way of calling, with the actor there, gone, or created anew."""
from .mutex import Act
from .refs import World as Here
from .results import asyncgens
from .stopping import nap
from .records import *


def localrefs(ctx: Ctx):
    core = ctx.prog.module("core").defs
    L, M = core["LocalActorRef"], core["LocalActorRefMethod"]

    def setup(it, w):
        asyncgens(it)
        it.stubs["asyncio.get_running_loop"] = lambda it, a, k: it.loop()
        a = Act(it)
        it.setitem(w.actors, A, a.o)
        return a

    def ways(it):
        w = Here(it, core)
        a = setup(it, w)
        kind = outcome(it, "method", "sync", "async")
        gate = it.call(("ext", "asyncio.Event"), [], [])
        a.method("one", kind, lambda n, args, kw: (it.await_(it.call(it.attr(gate, "wait"), [], [])) if kind == "async" else None, "value")[1])
        made = outcome(it, "reference", "looked up", "made of the actor")
        r = it.call(core["create_actor_ref"], [MAIN, A], []) if made == "looked up" else it.call(L, [a.o], [])
        m = it.attr(r, "one")
        if outcome(it, "options", True, False):
            m = it.call(it.attr(m, "options"), [], [("profiling_context", V("profiling context"))])
        how = outcome(it, "how", "__call__", "send", "tell", "tell_delay", "batch", "batch unawaited")
        state = outcome(it, "the actor", "is there", "is gone", "was created anew")
        if state != "is there":
            w.drop(A, a.o)
        if state == "was created anew":
            b = Act(it)
            it.setitem(w.actors, A, b.o)
            b.method("one", kind, lambda n, args, kw: "value")
            a.ran.append("old")
            a, old = b, a
        it.drain()
        if outcome(it, "the method is looked up", "before", "again") == "again":
            st, m = attempt(it, lambda: it.attr(r, "one"))
            if st == "raise":
                it.claim(state == "is gone" and err_is(it, m, "ActorNotExist"), "a reference does not find the actor that was created anew")
                return

        def start():
            if how.startswith("batch"):
                d = Stub("delayed", {"args": Seq("tuple", ["x"]), "kwargs": Dct([("k", "y")])})
                return it.call(it.attr(m, "batch"), [d], [("send", False)] if "unawaited" in how else [])
            if how == "tell_delay":
                return it.call(it.attr(m, how), ["x"], [("k", "y"), ("delay", 3)])
            return it.call(it.attr(m, how), ["x"], [("k", "y")])
        st, c = attempt(it, start)
        if st == "raise":
            it.claim(state == "is gone" and err_is(it, c, "ActorNotExist"), "calling a method of an actor that is there fails")
            return
        lazy = how in ("tell", "batch unawaited")
        t = c if isinstance(c, Task_) else it.spawn(c, how)
        if how == "tell_delay":
            nap(it, 2)
            it.claim(not a.ran[-1:] or a.ran == ["old"], "a delayed call does not wait for its delay")
        nap(it, 9)
        if state == "is gone":
            it.claim(t.state == "error" and err_is(it, t.value, "ActorNotExist"), "a method of an actor that is gone can still be called")
            return
        if lazy or how == "tell_delay":
            it.claim(t.done and t.state == "done", "telling waits for the method to end")
        elif kind == "async" and state == "is there":
            it.claim(not t.done, "a call does not wait for the method to end")
        it.call(it.attr(gate, "set"), [], [])
        nap(it, 9)
        it.claim(a.ran == [("one", ("x",), (("k", "y"),))], "the method does not run once, with the arguments given")
        if state == "was created anew":
            it.claim(old.ran == ["old"], "the method of an actor that is gone runs")
        it.claim(t.done and t.state == "done", "a call does not end")
        if not (lazy or how == "tell_delay") and t.done:
            v = t.value
            if how == "batch":
                v = v.parts[0] if isinstance(v, Seq) and len(v.parts) == 1 else None
            it.claim(freeze(v) == "value", "a call does not give what its method returned")
    Sc(ctx, "local", ctx.method(M, "__call__")).run("every way of calling", ways, max_paths=3000)

    def handled(it):
        """what a method returns goes through the actor's result handler, once"""
        w = Here(it, core)
        a = setup(it, w)
        seen = []
        val = {"none": None, "value": "v", "tuple": Seq("tuple", ["v", "w"]), "empty tuple": Seq("tuple", []), "list": Seq("list", ["v"]), "false": False}[outcome(it, "returns", "none", "value", "tuple", "empty tuple", "list", "false")]

        def handle(it, x, y):
            seen.append(x[-1])
            return Coro(lambda: Stub("handled"), "handler")
        it.stubs["core._BaseActor._handle_actor_result"] = handle
        kind = outcome(it, "method", "sync", "async")
        a.method("one", kind, lambda n, args, kw: val, hint=outcome(it, "lock free", False, True))
        m = it.attr(it.call(L, [a.o], []), "one")
        v = it.await_(it.call(it.attr(m, outcome(it, "how", "__call__", "send")), [], []))
        it.claim(len(seen) == 1 and freeze(seen[0]) == freeze(val), "what a method returns is not resolved once")
        it.claim(isinstance(v, Stub) and v.label == "handled", "a call does not give what the method's result resolves to")
    Sc(ctx, "local", ctx.method(M, "__call__")).run("what a method returns", handled, max_paths=300)
    apart(ctx)
    batches(ctx)
    ids(ctx)


def apart(ctx: Ctx):
    core = ctx.prog.module("core").defs
    R = core["ActorRef"]

    def go(it):
        """methods of different references, and of the same one with and without options"""
        w = Here(it, core)
        log = []

        def send(it, a, k):
            log.append((a[0], list(it.iterate(a[1]))[0], dict(k).get("profiling_context")))
            return Coro(lambda: "r", "send")
        it.stubs["core.get_context"] = it.stubs["context.get_context"] = lambda it, a, k: Stub("context", {}, {"send": send})
        r1 = it.call(R, [SUB1, A], [])
        r2 = it.call(R, [outcome(it, "second address", SUB1, SUB2), outcome(it, "second id", A, B)], [])
        m1, m2 = it.attr(r1, "foo"), it.attr(r2, "foo")
        n1, o = it.attr(r1, "bar"), V("profiling context")
        opted = it.call(it.attr(m1, "options"), [], [("profiling_context", o)])
        for m, r, n, p in ((m1, r1, "foo", None), (m2, r2, "foo", None), (n1, r1, "bar", None), (opted, r1, "foo", o), (it.attr(r1, "foo"), r1, "foo", None)):
            del log[:]
            it.await_(it.call(it.attr(m, "__call__"), [], []))
            it.claim(len(log) == 1 and log[0][0] is r and log[0][1] == n, "a method of one reference calls another one")
            it.claim(len(log) == 1 and log[0][2] is p, "options reach calls made without them, or are lost")
    Sc(ctx, "methods", ctx.method(R, "__getattr__")).run("two references", go)


def batches(ctx: Ctx):
    core = ctx.prog.module("core").defs
    R = core["ActorRef"]

    def go(it):
        """the method called is the one the delayed calls name"""
        sent = []

        def send(it, a, k):
            sent.append(list(it.iterate(a[1])))
            return Coro(lambda: "r", "send")
        it.stubs["core.get_context"] = it.stubs["context.get_context"] = lambda it, a, k: Stub("context", {}, {"send": send})
        r = it.call(R, [SUB1, A], [])
        names = [outcome(it, f"call {n}", "foo", "bar") for n in range(3)]
        ds = [it.call(it.attr(it.attr(r, n), "delay"), ["x"], []) for n in names]
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(it.attr(r, "foo"), "batch"), ds, [])))
        if len(set(names)) > 1:
            it.claim(st == "raise" and err_is(it, v, "ValueError") and not sent, "calls of different methods are sent as a batch of one")
        else:
            it.claim(st == "ok" and len(sent) == 1 and sent[0][0] == names[0], "a batch calls another method than its calls name")
    Sc(ctx, "methods", ctx.method(core["ActorRefMethod"], "batch")).run("calls of several methods", go)


def ids(ctx: Ctx):
    core = ctx.prog.module("core").defs
    R = core["ActorRef"]

    def go(it):
        """ids that differ stay different"""
        ids = ["a", "b", "\xe9", "\u4e2d", "\u6587", "?", "\xe9\xe9", ""]
        i = outcome(it, "first", *range(len(ids)))
        j = outcome(it, "second", *range(len(ids)))
        x, y = it.call(R, [MAIN, ids[i]], []), it.call(R, [MAIN, ids[j]], [])
        it.claim((freeze(it.attr(x, "uid")) == freeze(it.attr(y, "uid"))) == (i == j), "different ids become one")
        it.claim(freeze(it.attr(x, "uid")) == ids[i].encode(), "an id given as text is another one than its bytes")
    Sc(ctx, "ids", ctx.method(R, "__init__")).run("ids as text", go)


from ..machine import Task as Task_  # noqa: E402
from .contexts import V  # noqa: E402

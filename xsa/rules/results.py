"""C30: what an actor method returns or yields is resolved position by position; by abstract interpretation of the
result handler and of the generator driver under every outcome of up to three awaitables and every cancellation."""
from ..machine import GenObj
from .stopping import nap
from .records import *


def base(ctx):
    return ctx.prog.module("core").defs["_BaseActor"]




class Item:
    """One element of the tuple: made by the environment."""

    def __init__(self, it, n, kinds, gate):
        self.it, self.n, self.log = it, n, []
        self.kind = outcome(it, f"element {n}", *kinds)
        k = self.kind
        self.val = Seq("tuple", [f"v{n}"]) if n else f"v{n}"

        def body():
            self.log.append("started")
            try:
                if k in ("waits", "finishes anyway"):
                    it.await_(it.call(it.attr(gate, "wait"), [], []))
                for _ in range(3 - n):
                    it.pause()
            except Raised:
                self.log.append("cancelled")
                it.pause()
                it.await_(it.call(("ext", "asyncio.sleep"), [5], []))
                self.log.append("cleaned up")
                if k == "finishes anyway":
                    return self.val
                raise
            self.log.append("ended")
            if k == "fails":
                it.raise_("ValueError", f"element {n}")
            return self.val
        if k == "plain":
            self.given = self.val
        elif k == "none":
            self.given = self.val = None
        elif k == "future":
            self.given = it.spawn(Coro(body, f"element {n}"), f"element {n}")
        elif k == "generator":
            def gen():
                r = it.gen_yield(Coro(body, f"element {n}"))
                self.log.append(("resumed with", freeze(r)))
                exc(it, "Return", self.val)
            self.given = GenObj(f"element {n}", gen, True)
        else:
            self.given = Coro(body, f"element {n}")
        self.awaitable = k not in ("plain", "none")


def asyncgens(it):
    """the type test of the library, whose cache of types is not modelled"""
    it.stubs["_utils.is_async_generator"] = lambda it, a, k: isinstance(a[0], GenObj) and a[0].is_async


def exc(it, name, *a):
    cls = it.prog.module("errors").defs[name]
    v = it.call(cls, list(a), [])
    raise Raised(v, name)


def results(ctx: Ctx):
    cls = base(ctx)
    f = ctx.method(cls, "_handle_actor_result")

    def mk(it):
        asyncgens(it)
        return Obj(cls, {"_lock": it.call(("ext", "asyncio.Lock"), [], []), "_uid": A, "_address": MAIN})

    def positions(it, count):
        o = mk(it)
        gate = it.call(("ext", "asyncio.Event"), [], [])
        its = [Item(it, n, ("plain", "completes", "fails", "future", "generator") if count < 3 else ("plain", "completes", "fails"), gate) for n in range(count)]
        t = it.spawn(it.call(it.attr(o, "_handle_actor_result"), [Seq("tuple", [i.given for i in its])], []), "handler")
        it.drain()
        it.claim(t.done, "resolving the elements of a result never ends")
        for i in its:
            if i.awaitable:
                it.claim(i.log[:1] == ["started"] and ("ended" in i.log), "an element of a result is not awaited to its end")
        bad = [i for i in its if i.kind == "fails"]
        if bad:
            it.claim(t.state == "error" and "ValueError" in names(it, t.value), "the error of an element is not raised")
            return
        it.claim(t.state == "done" and isinstance(t.value, Seq) and t.value.kind == "tuple", "the result is not a tuple as given")
        if t.state == "done" and isinstance(t.value, Seq):
            got = list(it.iterate(t.value))
            it.claim(len(got) == len(its) and all(freeze(g) == freeze(i.val) for g, i in zip(got, its)), "a position of the result does not hold the value of the element given at this position")
    for n in ctx.more((1, 2, 3), (1, 2, 3, 4)):
        Sc(ctx, "positions", f).run(f"a tuple of {n}", lambda it, n=n: positions(it, n), max_paths=20000)

    def single(it):
        o = mk(it)
        gate = it.call(("ext", "asyncio.Event"), [], [])
        i = Item(it, 0, ("plain", "none", "completes", "fails", "future", "generator"), gate)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(o, "_handle_actor_result"), [i.given], [])))
        if i.kind == "fails":
            it.claim(st == "raise" and "ValueError" in names(it, v), "the error of the result is not raised")
        else:
            it.claim(st == "ok" and freeze(v) == freeze(i.val), "the value of the result is not returned")
    Sc(ctx, "positions", f).run("a single result", single)

    def cancel(it):
        o = mk(it)
        gate = it.call(("ext", "asyncio.Event"), [], [])
        its = [Item(it, n, ("plain", "completes", "waits", "fails"), gate) for n in range(2)]
        its.append(Item(it, 2, ("waits", "finishes anyway"), gate))
        then = []
        t = it.spawn(it.call(it.attr(o, "_handle_actor_result"), [Seq("tuple", [i.given for i in its])], []), "handler")
        it.drain()
        it.claim(not t.done, "the result is given before all its elements are resolved")
        t.callbacks.append(Native(lambda it, a, k: then.extend(list(i.log) for i in its)))
        it.task_cancel(t)
        nap(it, 20)
        it.claim(t.done, "cancelling the resolution of a result never ends")
        it.claim(t.state == "cancelled" or any(i.kind == "fails" for i in its) and t.state == "error" or
                 sum(i.awaitable for i in its) == 1 and its[2].kind == "finishes anyway", "the cancellation of a result is lost")
        for i, log in zip(its, then):
            if i.kind in ("waits", "finishes anyway"):
                it.claim("cancelled" in i.log, "an element is not cancelled with the whole")
                it.claim("cleaned up" in log, "an element is not awaited after it was cancelled")
    Sc(ctx, "cancelled", f).run("a tuple whose resolution is cancelled", cancel)
    _driver(ctx, cls)


def names(it, v):
    from ..machine import exc_names
    return exc_names(it.prog, v)


def driver(ctx: Ctx):
    _driver(ctx, base(ctx))


def _driver(ctx, cls):
    f = ctx.method(cls, "_run_actor_async_generator")

    def go(it):
        asyncgens(it)
        lock = it.call(("ext", "asyncio.Lock"), [], [])
        o = Obj(cls, {"_lock": lock, "_uid": A, "_address": MAIN})
        log = []
        wrong = {"failing": "KeyError", "cancelled": "CancelledError"}
        locked = lambda: it.truth(it.call(it.attr(lock, "locked"), [], []))
        ends = outcome(it, "the generator ends by", "Return", "Return of nothing much", "return", "error")
        steps = [outcome(it, f"yield {n}", "value", "awaitable", "failing", "tuple", "cancelled") for n in range(ctx.more(2, 3))]

        def waits(v, fail=False):
            def run():
                it.claim(not locked(), "the actor stays locked while it waits for what its generator yielded")
                it.pause()
                if fail:
                    it.raise_(fail, "k")
                return v
            return Coro(run, "yielded")

        def gen():
            for n, s in enumerate(steps):
                it.claim(locked(), "the generator runs without the actor's lock")
                want = Seq("tuple", [f"y{n}", f"z{n}"]) if s == "tuple" else f"y{n}"
                try:
                    r = it.gen_yield({"value": f"y{n}", "awaitable": waits(f"y{n}"), "failing": waits(None, "KeyError"), "cancelled": waits(None, "CancelledError"), "tuple": Seq("tuple", [waits(f"y{n}"), f"z{n}"])}[s])
                    log.append("value")
                    it.claim(s not in wrong, "the error of what was yielded is not raised at the yield")
                    it.claim(s in wrong or freeze(r) == freeze(want), "the generator does not get the value of what it yielded")
                except Raised as x:
                    log.append("error")
                    it.claim(s in wrong and wrong[s] in names(it, it.excval(x.value)), "an error that nothing raised reaches the generator")
            if "Return" in ends:
                exc(it, "Return", "answer" if ends == "Return" else 0)
            if ends == "error":
                it.raise_("ValueError", "x")
            return None
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(o, "_run_actor_async_generator"), [GenObj("user", gen, True)], [])))
        it.claim(len(log) == len(steps), "the generator is not run to its end")
        it.claim(not locked(), "the actor stays locked when its generator has ended")
        if "Return" in ends:
            it.claim(st == "ok" and freeze(v) == ("answer" if ends == "Return" else 0), "the value the generator returns is lost")
        elif ends == "return":
            it.claim(st == "ok" and v is None, "a generator that returns nothing gives something")
        else:
            it.claim(st == "raise" and "ValueError" in names(it, v), "the error of the generator is not raised")
    Sc(ctx, "driver", f).run("an async generator method", go)

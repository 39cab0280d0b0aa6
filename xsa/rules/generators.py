"""C20: generators of actor methods, by abstract interpretation of the wrapper, the producer's side and the consumer."""
from ..machine import GenObj, exc_names
from .records import *


def generators(ctx: Ctx):
    api = ctx.prog.module("api").defs
    mixin, wrap = api["AsyncActorMixin"], api["IteratorWrapper"]
    fn, fa = ctx.method(mixin, "__xoscar_next__"), ctx.method(wrap, "__anext__")

    class Lab:
        def __init__(self, it, kind, wants, ends, text="boom", err="ValueError"):
            """the actor, its method and the consumer's iterator; kind: how the method is written"""
            self.it, self.log, self.running = it, [], [0]
            self.actor = Obj(mixin, {"_generators": Dct(), "address": MAIN, "uid": A})
            self.ref = Stub("reference", {}, {n: (lambda it, a, k, n=n: it.call(it.attr(self.actor, n), a, list(k))) for n in ("__xoscar_next__", "__xoscar_destroy_generator__")})
            self.refs = []

            def ref(it, a, k):
                self.refs.append(dict(k))
                return Coro(lambda: self.ref, "actor_ref")
            it.stubs["api.actor_ref"] = ref
            n = [0]

            def uid(it, a, k):
                n[0] += 1
                return Stub("uuid", {"hex": f"generator {n[0]}"})
            it.stubs["uuid.uuid1"] = it.stubs["uuid.uuid4"] = uid

            def body():
                for x in wants:
                    self.log.append(x)
                    it.gen_yield(x)
                if ends == "error":
                    it.raise_(err, text)
                return "not an item"
            isasync = kind.startswith("async gen")
            self.args = []

            def method(it, a, k):
                self.args.append((a[1:], dict(k)))
                r = GenObj("user", body, isasync)
                return Coro(lambda: r, "method") if "coroutine" in kind else r
            m = Native(method, "method")
            m.is_async = "coroutine" in kind
            self.w = it.call(api["generator"], [m], [])

        def make(self):
            it = self.it
            v = it.await_(it.call(self.w, [self.actor, "arg"], [("kw", "kwarg")]))
            it.claim(self.args[-1] == (["arg"], {"kw": "kwarg"}), "the arguments of the method are not passed on")
            it.claim(isinstance(v, Obj) and v.cls is wrap, "the consumer does not get an iterator")
            return v

        def left(self):
            return len(self.actor.attrs["_generators"].items)

        def step(self, w):
            return attempt(self.it, lambda: self.it.await_(self.it.call(self.it.attr(w, "__anext__"), [], [])))

    KINDS = ("generator", "async generator", "coroutine returning a generator", "async generator in a coroutine")

    def go(it):
        kind = outcome(it, "the method is", *KINDS)
        n = outcome(it, "items", 0, 1, 3)
        ends = outcome(it, "then", "end", "error")
        text = outcome(it, "message", "boom", "saw StopIteration") if ends == "error" else "boom"
        err = outcome(it, "error", "ValueError", "RuntimeError", "CancelledError") if ends == "error" and text == "boom" else "ValueError"
        wants = [None, "x", False][:n] if outcome(it, "items are", "false", "others") == "false" else [f"i{i}" for i in range(n)]
        lab = Lab(it, kind, wants, ends, text, err)
        w = lab.make()
        it.claim(not lab.log, "the method runs ahead of its consumer")
        for i, x in enumerate(wants):
            st, v = lab.step(w)
            it.claim(st == "ok" and v == x and type(v) is type(x), "the consumer does not get the items of the method in order")
            it.claim(lab.log == wants[:i + 1], "the method runs ahead of its consumer")
            it.claim(lab.left() == 1, "a generator that is not exhausted is forgotten")
        st, e = lab.step(w)
        it.claim(st == "raise", "an item is made up after the last one")
        if st == "raise":
            ns = exc_names(it.prog, e)
            if ends == "error":
                it.claim(err in ns, "the error of the method does not reach the consumer")
            else:
                it.claim("StopAsyncIteration" in ns, "the end of the generator is not the end of the iteration")
        it.claim(lab.left() == 0 or err == "CancelledError", "a generator that has ended stays in the actor")
        it.claim(all(str(r.get("address")) == MAIN and r.get("uid") == A for r in lab.refs) and lab.refs, "the consumer does not ask the actor that owns the generator")
    Sc(ctx, "items", fn).run("a generator consumed to its end", go, max_paths=800)

    def two(it):
        kind = outcome(it, "the method is", *KINDS[:2])
        lab = Lab(it, kind, ["a", "b"], "end")
        w1, w2 = lab.make(), lab.make()
        got = [lab.step(w)[1] for w in (w1, w2, w1)]
        it.claim(got == ["a", "a", "b"], "two generators of an actor mix up their items")
        how = outcome(it, "the first is", "destroyed", "collected")
        if how == "destroyed":
            st, _ = attempt(it, lambda: it.await_(it.call(it.attr(w1, "destroy"), [], [])))
        else:
            ran = []

            def thread(it, a, k):
                kw = dict(k)
                return Stub("thread", {}, {"start": lambda it, a2, k2: ran.append(it.call(kw["target"], list(it.iterate(kw.get("args", Seq("tuple", [])))), [])), "join": lambda it, a2, k2: None})
            it.stubs["threading.Thread"] = thread
            it.stubs["asyncio.run"] = lambda it, a, k: it.await_(a[0])
            st, _ = attempt(it, lambda: it.call(it.attr(w1, "__del__"), [], []))
        it.claim(st == "ok" and lab.left() == 1, "a generator whose iterator is gone stays in the actor")
        st, e = lab.step(w1)
        it.claim(st == "raise" and "StopAsyncIteration" not in exc_names(it.prog, e), "a destroyed generator looks as if it had ended")
        st, v = lab.step(w2)
        it.claim(st == "ok" and v == "b", "destroying a generator affects another")
    Sc(ctx, "owner", ctx.method(wrap, "destroy")).run("two generators of an actor", two)

    def moved(it):
        w = it.call(wrap, ["uid", MAIN, A], [])
        st = it.call(it.attr(w, "__getstate__"), [], [])
        it.claim(isinstance(st, Dct), "the state of an iterator is not a mapping")
        if not isinstance(st, Dct):
            return
        for n, v in (("_uid", "uid"), ("_actor_addr", MAIN), ("_actor_uid", A)):
            it.claim(dget(st, n) == v, "an iterator that is sent names another generator")
        it.claim(dget(st, "_gc_destroy") is True, "nobody destroys the generator of an iterator that was sent")
        ran = []
        it.stubs["threading.Thread"] = lambda it, a, k: (ran.append(1), Stub("thread", {}, {"start": lambda it, a, k: None, "join": lambda it, a, k: None}))[1]
        it.stubs["asyncio.run"] = lambda it, a, k: None
        it.call(it.attr(w, "__del__"), [], [])
        it.claim(not ran, "the generator is destroyed while the iterator that was sent is in use")
    Sc(ctx, "owner", ctx.method(wrap, "__getstate__")).run("an iterator that is sent", moved)

    def plain(it):
        is_coro = outcome(it, "the method is a coroutine", True, False)
        actor = Obj(mixin, {"_generators": Dct(), "address": MAIN, "uid": A})
        m = Native(lambda it, a, k: Coro(lambda: "plain", "m") if is_coro else "plain", "method")
        m.is_async = is_coro
        w = it.call(api["generator"], [m], [])
        it.claim(it.await_(it.call(w, [actor], [])) == "plain" and not actor.attrs["_generators"].items, "the result of a method that makes no generator is changed")
    Sc(ctx, "items", api["generator"]).run("a method that returns no generator", plain)

"""C19: batch calls, by abstract interpretation of the dispatching of single and batch implementations, of the sender
and receiver of a batch, and by checking the argument binder that is generated as source text."""
import ast

from ..shapes import Bound

from ..machine import exc_names
from .records import *


class Impl:
    """A method with a single and/or a batch implementation: the environment decides how they behave."""

    def __init__(self, it, is_async, n):
        self.it, self.is_async = it, is_async
        self.runs, self.order, self.cancelled = [], [], []
        self.single = outcome(it, "the single implementation", "works", "is not there", "fails")
        self.batch = outcome(it, "the batch implementation", "works", "is not there", "fails", *(["returns nothing"] if n is None else []))
        self.gate = None

    def res(self, a, k):
        return ("r", tuple(map(str, a)), tuple(sorted((x, str(y)) for x, y in k.items())))

    def fn(self):
        it = self.it

        def call(it, a, k):
            k = dict(k)

            def run():
                if self.single == "is not there":
                    it.raise_("NotImplementedError")
                self.runs.append(self.res(a, k))
                if self.is_async:
                    # the first calls take longest
                    for _ in range(6 - len(self.runs)):
                        it.pause()
                if self.single == "fails":
                    it.raise_("ValueError", "x")
                return T("r", self.res(a, k))
            return Coro(run, "single") if self.is_async else run()
        f = Native(call, "single")
        f.is_async = self.is_async
        return f

    def bfn(self):
        it = self.it
        if self.batch == "is not there":
            return None

        def call(it, a, k):
            def run():
                al, kl = list(it.iterate(a[0])), list(it.iterate(a[1]))
                it.claim(len(al) == len(kl), "the lists of arguments given to the batch implementation differ in length")
                out = []
                for x, y in zip(al, kl):
                    r = self.res(list(it.iterate(x)), dict((q, v) for q, v in items_of(y)))
                    self.runs.append(r)
                    out.append(T("r", r))
                if self.batch == "fails":
                    it.raise_("KeyError", "x")
                return None if self.batch == "returns nothing" else Seq("list", out)
            return Coro(run, "batch") if self.is_async else run()
        f = Native(call, "batch")
        f.is_async = self.is_async
        return f


ARGS = [(["a0"], {}), (["a1", "b1"], {"k": "v1"}), ([], {"k": "v2", "l": "w2"})]


def batching(ctx: Ctx):
    mod = ctx.prog.module("batch").defs
    wcls = mod["_ExtensibleWrapper"]
    kw = lambda d: Dct(list(d.items()))
    tup = lambda a: Seq("tuple", list(a))

    def await_if(it, v):
        return it.await_(v) if isinstance(v, Coro) else v

    def wrapper(it, im):
        return it.call(wcls, [im.fn()], [("batch_func", im.bfn()), ("bind_func", None), ("is_async", im.is_async)])

    def names(it, e):
        return exc_names(it.prog, e)

    def single(it, is_async):
        im = Impl(it, is_async, None)
        w = wrapper(it, im)
        a, k = ARGS[1]
        for again in range(2):
            im.runs.clear()
            st, v = attempt(it, lambda: await_if(it, it.call(it.attr(w, "__call__"), list(a), list(k.items()))))
            want = im.res(a, k)
            if im.single == "works" or im.single == "is not there" and im.batch in ("works", "returns nothing"):
                exp = None if im.single != "works" and im.batch == "returns nothing" else T("r", want)
                it.claim(st == "ok" and (v is None if exp is None else freeze(v) == exp), "a call does not give what the implementation gave")
                it.claim(im.runs == [want], "a call does not run the method exactly once with its arguments")
            else:
                exp = "ValueError" if im.single == "fails" else "KeyError" if im.batch == "fails" else "NotImplementedError"
                it.claim(st == "raise" and exp in names(it, v), "the error of the implementation is not raised")
    f1 = ctx.method(wcls, "_async_call") if ctx.prog.method(wcls, "_async_call", required=False) else ctx.method(wcls, "__call__")
    Sc(ctx, "single", f1).run("an asynchronous call", lambda it: single(it, True))
    Sc(ctx, "single", ctx.method(wcls, "__call__")).run("a synchronous call", lambda it: single(it, False))

    def many(it, is_async, via):
        n = outcome(it, "calls", 0, 1, 2, 3)
        im = Impl(it, is_async, n)
        w = wrapper(it, im)
        calls = ARGS[:n]
        if via == "batch":
            ds = [it.call(it.attr(w, "delay"), list(a), list(k.items())) for a, k in calls]
            go = lambda: it.call(it.attr(w, "batch"), ds, [])
        else:
            go = lambda: it.call(it.attr(w, "call_with_lists"), [Seq("list", [tup(a) for a, k in calls]), Seq("list", [kw(k) for a, k in calls])], [])
        st, v = attempt(it, lambda: await_if(it, go()))
        want = [im.res(a, k) for a, k in calls]
        works = im.batch == "works" or im.batch == "is not there" and im.single == "works" or im.single == "works" and n == 1 and is_async
        if n == 0 or im.batch == "works" and im.single != "fails" or im.single == "works" and im.batch == "is not there":
            got = list(it.iterate(v)) if st == "ok" and isinstance(v, Seq) else None
            it.claim(got is not None and len(got) == n, "the number of results is not the number of calls")
            it.claim(got is not None and [freeze(x) for x in got] == [T("r", x) for x in want], "the results of a batch are not those of the calls, in their order")
            it.claim(sorted(im.runs) == sorted(want), "a call of a batch does not run exactly once with its arguments")
        elif not works:
            # more than one implementation may be to blame, some error is raised
            it.claim(st == "raise" and {"ValueError", "KeyError", "NotImplementedError"} & set(names(it, v)), "the error of the implementation is not raised")
    for is_async in (True, False):
        m = ctx.method(wcls, "batch")
        for via in ("batch", "call_with_lists"):
            Sc(ctx, "batch", m if via == "batch" else ctx.method(wcls, via)).run(f"{'an asynchronous' if is_async else 'a synchronous'} batch", lambda it, a=is_async, via=via: many(it, a, via))

    def cancel(it):
        log = []

        def call(it, a, k):
            def run():
                try:
                    it.await_(it.call(it.attr(gate, "wait"), [], []))
                except Raised:
                    log.append("cancelled " + a[0])
                    it.pause()
                    log.append("cleaned " + a[0])
                    raise
            return Coro(run, "single")
        gate = it.call(("ext", "asyncio.Event"), [], [])
        f = Native(call, "single")
        f.is_async = True
        w = it.call(wcls, [f], [("is_async", True)])
        t = it.spawn(it.call(it.attr(w, "call_with_lists"), [Seq("list", [tup(["x"]), tup(["y"])]), Seq("list", [Dct(), Dct()])], []), "batch")
        it.drain()
        it.task_cancel(t)
        it.drain()
        it.claim(t.state == "cancelled", "cancelling a batch does not end it")
        it.claim({"cancelled x", "cancelled y"} <= set(log), "the calls of a cancelled batch go on")
    Sc(ctx, "batch", ctx.method(wcls, "call_with_lists")).run("a batch that is cancelled", cancel)

    _accessor(ctx, mod)
    _sender(ctx)
    _receiver(ctx)
    _binder(ctx, mod)


def _accessor(ctx, mod):
    cls = mod["_ExtensibleAccessor"]
    f = ctx.method(cls, "__get__")

    def go(it):
        it.stubs["batch.build_args_binder"] = lambda it, a, k: fobj("bind", False)
        is_async = outcome(it, "asynchronous", True, False)
        has_batch = outcome(it, "batch implementation", True, False)
        hint = outcome(it, "without lock", None, "single", "batch") if has_batch else outcome(it, "without lock", None, "single")
        inst = Stub("instance")
        bound = []

        def fobj(label, asy):
            def get(it, a, k):
                bound.append((label, freeze(a[0])))
                n = Native(lambda it, a, k: T("ran", label), label)
                n.is_async = asy
                return n
            st = Stub(label, {"__name__": label}, {"__get__": get}, kind="function")
            st.is_async = asy
            if hint == label:
                st.attrs["__XOSCAR_ACTOR_METHOD_NO_LOCK__"] = True
            return st
        fs, fb = fobj("single", is_async), fobj("batch", is_async)
        it.stubs["asyncio.iscoroutinefunction"] = it.stubs["inspect.iscoroutinefunction"] = lambda it, a, k: bool(getattr(a[0], "is_async", False))
        acc = it.call(cls, [fs], [])
        if has_batch:
            r = it.call(it.attr(acc, "batch"), [fb], [])
            it.claim(r is acc, "declaring the batch implementation loses the method")
        w = it.call(Bound(f, acc, cls), [inst, T("owner")], [])
        it.claim(isinstance(w, Obj), "an extensible method is not one when taken from an actor")
        it.claim(("single", freeze(inst)) in bound and (not has_batch or ("batch", freeze(inst)) in bound), "an implementation is not bound to the actor")
        r = it.call(it.attr(w, "func"), [], [])
        it.claim(freeze(r) == T("ran", "single"), "the single implementation is lost")
        b = it.attr(w, "batch_func")
        it.claim((b is None) == (not has_batch) and (b is None or freeze(it.call(b, [], [])) == T("ran", "batch")), "the batch implementation is lost")
        it.claim(it.attr(w, "is_async") is is_async, "an asynchronous method is treated as a synchronous one or the other way round")
        st, v = attempt(it, lambda: it.attr(w, "__XOSCAR_ACTOR_METHOD_NO_LOCK__"))
        it.claim((st == "ok" and v is True) == (hint is not None), "the mark for running without the lock is lost or made up")
    Sc(ctx, "accessor", f).run("taking an extensible method from an actor", go)


def _sender(ctx):
    core = ctx.prog.module("core").defs
    cls = core["ActorRefMethod"]
    f = ctx.method(cls, "batch")

    def go(it):
        sent = []

        def send(it, a, k):
            d = dict(zip(("ref", "message"), a))
            d.update(dict(k))
            sent.append(d)
            return Coro(lambda: T("answer"), "send")
        it.stubs["core.get_context"] = it.stubs["context.get_context"] = lambda it, a, k: Stub("context", {}, {"send": send})
        r = T("reference")
        m = it.call(cls, [r, "method"], [])
        other = it.call(cls, [r, "other"], [])
        n = outcome(it, "calls", 0, 1, 2, 3)
        kws = outcome(it, "keyword arguments", "of every call", "none", "of the first call", "of the last call")
        have = {"of every call": range(n), "none": (), "of the first call": (0,), "of the last call": (n - 1,)}[kws]
        calls = [(a, (k or {"k": 1}) if i in have else {}) for i, (a, k) in enumerate(ARGS[:n])]
        mixed = outcome(it, "of one method", True, False) is False if n > 1 else False
        ds = [it.call(it.attr(other if mixed and i == n - 1 else m, "delay"), list(a), list(k.items())) for i, (a, k) in enumerate(calls)]
        wait = outcome(it, "answer awaited", True, False)
        st, v = attempt(it, lambda: it.call(it.attr(m, "batch"), ds, [("send", wait)]))
        if mixed:
            it.claim(st == "raise", "calls of different methods are sent as a batch of one")
            return
        it.claim(st == "ok" and len(sent) == 1, "a batch is not sent as one message")
        if st != "ok" or len(sent) != 1:
            return
        d = sent[0]
        it.claim(freeze(d["ref"]) == r, "a batch is sent to another actor")
        it.claim(d.get("wait_response", True) is wait, "a batch is sent with another wait mode than asked for")
        msg = list(it.iterate(d["message"]))
        al, kl = list(it.iterate(msg[2]))
        it.claim(msg[0] == "method" and msg[1] == it.prog.module("core").consts["CALL_METHOD_BATCH"] if "CALL_METHOD_BATCH" in getattr(it.prog.module("core"), "consts", {}) else msg[0] == "method", "a batch names another method")
        it.claim([list(it.iterate(x)) for x in it.iterate(al)] == [a for a, k in calls], "the arguments of the calls are not sent in their order")
        got = [dict(items_of(x)) for x in it.iterate(kl)] if kl is not None else [{}] * n
        it.claim(got == [k for a, k in calls], "the keyword arguments of the calls are not sent in their order")
    Sc(ctx, "sender", f).run("sending a batch", go)


def _receiver(ctx):
    core = ctx.prog.module("core").defs
    cls = core["_BaseActor"]
    f = ctx.method(cls, "__on_receive__")

    def go(it):
        got = []
        lock = it.call(("ext", "asyncio.Lock"), [], [])
        is_async = outcome(it, "asynchronous", True, False)
        nolock = outcome(it, "without lock", True, False)

        def lists(it, a, k):
            def run():
                got.append((a, it.truth(it.call(it.attr(lock, "locked"), [], []))))
                return Seq("list", ["r0", "r1"])
            return Coro(run, "batch") if is_async else run()
        m = Stub("method", {"__XOSCAR_ACTOR_METHOD_NO_LOCK__": True} if nolock else {}, {"call_with_lists": lists})
        o = Obj(cls, {"_lock": lock, "_uid": A, "_address": MAIN, "m": m})
        kl = outcome(it, "keyword arguments", True, False)
        ks = Seq("list", [Dct([("k", "v")]), Dct()]) if kl else None
        al = Seq("list", [Seq("tuple", ["a"]), Seq("tuple", ["b"])])
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(o, "__on_receive__"), [Seq("tuple", ["m", 1, Seq("tuple", [al, ks]), None])], [])))
        it.claim(st == "ok" and isinstance(v, Seq) and list(it.iterate(v)) == ["r0", "r1"], "the results of a batch are not returned")
        it.claim(len(got) == 1, "a batch is not run exactly once")
        if len(got) == 1:
            a, locked = got[0]
            it.claim(it.fz(a[0]) == it.fz(al), "the arguments of a batch do not reach the method")
            it.claim([dict(items_of(x)) for x in it.iterate(a[1])] == ([{"k": "v"}, {}] if kl else [{}, {}]), "the keyword arguments of a batch do not reach the method")
            it.claim(locked is not nolock, "a batch does not run under the actor's lock, or does although the method is marked")
    Sc(ctx, "receiver", f).run("receiving a batch", go)


def _binder(ctx, mod):
    f = mod["build_args_binder"]

    def go(it):
        args = outcome(it, "parameters", ("self",), ("self", "a", "b"))
        var = outcome(it, "variable parameters", None, "rest")
        kwo = outcome(it, "keyword parameters", (), ("k", "l"))
        varkw = outcome(it, "variable keyword parameters", None, "more")
        remove = outcome(it, "without self", True, False)
        L = lambda x: Seq("list", list(x))
        it.stubs["inspect.getfullargspec"] = lambda it, a, k: Stub("spec", {"args": L(args), "varargs": var, "varkw": varkw, "defaults": T("defaults"), "kwonlyargs": L(kwo), "kwonlydefaults": T("kwdefaults")})
        fields, texts = {}, []

        def nt(it, a, k):
            fields[a[0]] = [x for x in it.iterate(a[1])]
            return T("type", a[0])
        it.stubs["collections.namedtuple"] = nt
        out = Stub("binder")

        def ex(it, a, k):
            texts.append((a[0], a[1]))
            t = ast.parse(a[0])
            it.setitem(a[2], t.body[0].name, out)
        it.stubs["exec"] = ex
        it.stubs["textwrap.dedent"] = lambda it, a, k: __import__("textwrap").dedent(a[0])
        it.stubs["globals"] = lambda it, a, k: Dct()
        fn = Stub("function", {"__name__": "method"})
        st, v = attempt(it, lambda: it.call(f, [fn], [("remove_self", remove)]))
        it.claim(st == "ok" and v is out and len(texts) == 1, "no binder is made")
        if st != "ok" or len(texts) != 1:
            return
        d = ast.parse(texts[0][0]).body[0]
        s = d.args
        it.claim([x.arg for x in s.posonlyargs + s.args] == list(args) and (s.vararg.arg if s.vararg else None) == var and [x.arg for x in s.kwonlyargs] == list(kwo) and (s.kwarg.arg if s.kwarg else None) == varkw,
                 "the binder does not take the parameters of the method")
        it.claim(freeze(out.attrs.get("__defaults__")) == T("defaults") and freeze(out.attrs.get("__kwdefaults__")) == T("kwdefaults"), "the binder loses the defaults of the method")
        r = d.body[0]
        ok = isinstance(r, ast.Return) and isinstance(r.value, ast.Call) and isinstance(r.value.func, ast.Name) and r.value.func.id in fields and not r.value.keywords
        it.claim(ok, "the binder does not return the bound arguments")
        if not ok:
            return
        given = [x.id for x in r.value.args if isinstance(x, ast.Name)]
        want = [x for x in args if not (remove and x == args[0])] + ([var] if var else []) + list(kwo) + ([varkw] if varkw else [])
        it.claim(given == fields[r.value.func.id] and sorted(given) == sorted(want), "an argument is bound to the name of another")
    Sc(ctx, "binder", f).run("every kind of signature", go)

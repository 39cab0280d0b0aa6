"""C35: what is registered for a scheme or a class is what serves it, by abstract interpretation of the registries, of the
operations of the client context and of the construction of actors."""
from ..shapes import Bound, Raised
from .records import *
from .contexts import V

OPS = {"create_actor": None, "has_actor": "ref", "destroy_actor": "ref", "kill_actor": "ref", "send": "ref", "actor_ref": "uid",
       "wait_actor_pool_recovered": "address", "get_pool_config": "address", "buffer_ref": "address", "file_object_ref": "address"}
NAMES = ((None, "x"), "y", Seq("list", ["x", "y"]), Seq("tuple", [None]))


def schemes(ctx: Ctx):
    _registry(ctx)
    _operations(ctx)
    _clusters(ctx)
    _pools(ctx)
    _implementations(ctx)
    _current(ctx)


def parsing(it):
    it.stubs["urlparse"] = it.stubs["urllib.parse.urlparse"] = lambda it, a, k: Stub("url", {"scheme": a[0].split("://")[0] if "://" in a[0] else ""})


def fresh(it, ctx):
    m = ctx.prog.module
    d = {"backend": Dct(), "driver": Dct(), "context": Dct()}
    it.mods[(m("backend").name, "_scheme_to_backend_cls")] = d["backend"]
    it.mods[(m("driver").name, "_backend_driver_cls")] = d["driver"]
    it.mods[(m("context").name, "_backend_context_cls")] = d["context"]
    it.stubs["issubclass"] = lambda it, a, k: True
    parsing(it)
    return d


class Backend:
    """A backend whose pools, contexts and driver note what they are asked for."""

    def __init__(self, it, name, names):
        self.name, self.made, self.asked, self.setup, self.pools = name, [], [], [], []

        def context(it, a, k):
            it.claim(not k and (len(a) == 1), "a context is not made for an address")
            c = Stub(f"context {len(self.made)} of {name}", default=self.op)
            self.made.append(c)
            return c

        def pool(it, a, k):
            self.pools.append((list(a), list(k)))
            return Coro(lambda: Stub(f"pool of {name}", {"by": name}), "create")
        self.context = Native(context, f"context class of {name}")
        self.driver = Stub(f"driver of {name}", {}, {"setup_cluster": lambda it, a, k: self.setup.append(a[0])})
        self.cls = Stub(f"backend {name}", {}, {"name": lambda it, a, k: names, "get_context_cls": lambda it, a, k: self.context,
                                                "get_driver_cls": lambda it, a, k: self.driver, "create_actor_pool": pool})

    def op(self, it, n):
        def call(it, a, k):
            self.asked.append((n, list(a), list(k)))
            return T("answer", self.name, n)
        return Native(call, n)


def names_of(n):
    return list(n.parts) if isinstance(n, Seq) else list(n) if isinstance(n, tuple) else [n]


def _registry(ctx):
    f = ctx.prog.module("backend").defs["register_backend"]

    def go(it):
        d = fresh(it, ctx)
        want = {}
        for i in range(2):
            names = (Seq("tuple", [None, "x"]), "y", Seq("list", ["x", "y"]), None)[outcome(it, f"names of backend {i}", 0, 1, 2, 3)]
            b = Backend(it, f"b{i}", names)
            st, r = attempt(it, lambda: it.call(f, [b.cls], []))
            it.claim(st == "ok" and r is b.cls, "registering a backend fails or replaces it")
            want.update({n: b for n in names_of(names)})
        for n in (None, "x", "y", "z"):
            st, r = attempt(it, lambda: it.call(ctx.prog.module("backend").defs["get_backend"], [n], []))
            if n in want:
                it.claim(st == "ok" and r is want[n].cls, "a scheme is served by another backend than the one registered for it")
                it.claim(dget(d["context"], n) is want[n].context, "a scheme has another context than its backend's")
                it.claim(dget(d["driver"], n) is want[n].driver, "a scheme has another driver than its backend's")
            else:
                it.claim(st == "raise", "a scheme is served though no backend is registered for it")
    Sc(ctx, "registry", f).run("registering backends", go, max_paths=200)


def client(it, ctx, b=None, c=None):
    d = fresh(it, ctx)
    it.setitem(d["context"], None, (b or Backend(it, "plain", None)).context)
    it.setitem(d["context"], "far", (c or Backend(it, "far", "far")).context)
    return it.call(ctx.prog.module("context").defs["ClientActorContext"], [], [])


def _operations(ctx):
    cls = ctx.prog.module("context").defs["ClientActorContext"]
    f = ctx.method(cls, "_get_backend_context")

    def go(it):
        b, c = Backend(it, "plain", None), Backend(it, "far", "far")
        cc = client(it, ctx, b, c)
        first = outcome(it, "first address", "h:1", "far://h:1", "://h:1", "none", "unknown://h:1")
        for n, addr in enumerate((first, "h:2", "far://h:2", "h:1")):
            st, v = attempt(it, lambda: it.call(it.attr(cc, "get_pool_config"), [None if addr == "none" else addr], []))
            if addr in ("none", "unknown://h:1"):
                it.claim(st == "raise" and err_is(it, v, "ValueError" if addr == "none" else "KeyError"), "an address that nothing serves is served")
                continue
            x = c if addr.startswith("far") else b
            it.claim(st == "ok" and v == T("answer", x.name, "get_pool_config") and x.asked[-1][1:] == ([addr], []), "an address is served by the context of another scheme")
        it.claim(len(b.made) == 1 and len(c.made) == 1, "a scheme does not have exactly one context")
    Sc(ctx, "context", f).run("contexts of addresses", go)

    for name, how in OPS.items():
        def op(it, name=name, how=how):
            b, c = Backend(it, "plain", None), Backend(it, "far", "far")
            cc = client(it, ctx, b, c)
            x, addr = (b, "h:1") if outcome(it, "address", "plain", "far") == "plain" else (c, "far://h:1")
            r = ref(it, addr, A)
            extra, kw = [], []
            if how == "ref":
                args = [r] + ([V("message")] if name == "send" else [])
                kw = [("wait_response", outcome(it, "awaited", True, False)), ("profiling_context", V("profiling"))] if name == "send" and outcome(it, "options", True, False) else []
            elif name == "actor_ref":
                it.stubs["create_actor_ref"] = lambda it, a, k: (extra.append((list(a), list(k))), r)[1]
                args, kw = [addr, A], []
                if outcome(it, "by name", True, False):
                    args, kw = [], [("address", addr), ("uid", A)]
            elif name == "create_actor":
                args = [T("class"), V("one"), V("two")]
                kw = [("address", addr), ("x", V("x"))] + ([("uid", "given")] if outcome(it, "id", "given", "not given") == "given" else [])
                it.stubs["new_actor_id"] = lambda it, a, k: "new"
            else:
                args = [addr] + {"wait_actor_pool_recovered": [MAIN], "get_pool_config": [], "buffer_ref": [V("buffer")], "file_object_ref": [V("file")]}[name]
            st, v = attempt(it, lambda: it.call(it.attr(cc, name), args, kw))
            it.claim(st == "ok" and v == T("answer", x.name, name), "an operation gives another result than the context of the address")
            it.claim(len(x.asked) == 1 and not (c if x is b else b).asked, "an operation is not done exactly once by the context of its address")
            if len(x.asked) != 1:
                return
            _, a, k = x.asked[0]
            k = dict(k)
            if name == "actor_ref":
                it.claim(extra == [(args, kw)] and len(a) == 1 and a[0] is r and not k, "a reference is looked up for other arguments")
            elif name == "create_actor":
                it.claim(a == args and k == {**dict(kw), "uid": "given" if ("uid", "given") in kw else "new"}, "an actor is created with other arguments")
            elif name == "send":
                want = dict(kw) or {"wait_response": True, "profiling_context": None}
                it.claim(len(a) == 2 and a[0] is r and a[1] == args[1] and {"wait_response": True, "profiling_context": None, **k} == want, "a call is sent with other options")
            else:
                it.claim(len(a) == len(args) and all(p is q or p == q for p, q in zip(a, args)) and not k, "an operation is done with other arguments")
        Sc(ctx, "operation", ctx.method(cls, name)).run(f"{name} of the client context", op)


def _clusters(ctx):
    f = ctx.prog.module("api").defs["setup_cluster"]

    def go(it):
        fresh(it, ctx)
        bs = {None: Backend(it, "plain", None), "far": Backend(it, "far", "far")}

        def get(it, a, k):
            if a[0] not in bs:
                it.raise_("KeyError")
            return bs[a[0]].cls
        it.stubs["get_backend"] = get
        addrs = {"one": ["h:1"], "two": ["h:1", "h:2"], "mixed": ["far://h:1", "h:1", "far://h:2"], "none": []}[outcome(it, "nodes", "one", "two", "mixed", "none")]
        bad = outcome(it, "address missing", True, False)
        d = Dct([(a, T("resources", a)) for a in addrs] + ([(None, T("resources"))] if bad else []))
        st, v = attempt(it, lambda: it.call(f, [d], []))
        if bad:
            it.claim(st == "raise" and err_is(it, v, "ValueError") and not any(b.setup for b in bs.values()), "a node without an address is set up")
            return
        it.claim(st == "ok", "setting up a cluster fails")
        for s, b in bs.items():
            mine = [(a, T("resources", a)) for a in addrs if a.startswith("far") == (s == "far")]
            it.claim([items_of(x) for x in b.setup] == ([mine] if mine else []), "a backend sets up other nodes than its own")
    Sc(ctx, "cluster", f).run("setting up nodes", go)


def _pools(ctx):
    f = ctx.prog.module("api").defs["create_actor_pool"]

    def go(it):
        fresh(it, ctx)
        bs = {None: Backend(it, "plain", None), "far": Backend(it, "far", "far")}

        def get(it, a, k):
            if a[0] not in bs:
                it.raise_("KeyError")
            return bs[a[0]].cls
        it.stubs["get_backend"] = get
        addr = {"none": None}.get(*[outcome(it, "address", "h:1", "far://h:1", "no://h:1", "none")] * 2)
        kw = [("n_process", 3), ("labels", V("labels"))] if outcome(it, "options", True, False) else []
        st, v = attempt(it, lambda: it.await_(it.call(f, [addr], kw)))
        if addr is None or addr.startswith("no:"):
            it.claim(st == "raise" and err_is(it, v, "ValueError" if addr is None else "KeyError"), "a pool is created for an address that nothing serves")
            return
        b = bs["far" if addr.startswith("far") else None]
        it.claim(st == "ok" and isinstance(v, Stub) and v.attrs.get("by") == b.name and len(b.pools) == 1, "a pool is created by another backend than the address asks for")
        if len(b.pools) == 1:
            a, k = b.pools[0]
            it.claim(a == [addr] and {x: y for x, y in k if y is not None} == dict(kw), "a pool is created with other options than given")
    Sc(ctx, "pool", f).run("creating pools", go)

    cls = ctx.prog.module("backends.indigen.backend").defs["IndigenActorBackend"]
    g = ctx.method(cls, "create_actor_pool")

    def indigen(it):
        got = []
        it.stubs["backends.pool.create_actor_pool"] = lambda it, a, k: (got.append((list(a), dict(k))), Coro(lambda: "pool", "create"))[1]
        n = outcome(it, "processes", 0, 2)
        kw = [("labels", V("labels"))] if outcome(it, "options", True, False) else []
        st, v = attempt(it, lambda: it.await_(it.call(Bound(g, cls, cls), ["h:1"], [("n_process", n)] + kw)))
        it.claim(st == "ok" and v == "pool" and len(got) == 1, "a pool is not created exactly once")
        if len(got) == 1:
            a, k = got[0]
            it.claim(a == ["h:1"] and k.pop("pool_cls", None) is ctx.prog.module("backends.indigen.pool").defs["MainActorPool"] and k == {"n_process": n, **dict(kw)}, "a pool is created with other options than given")
    Sc(ctx, "pool", g).run("creating pools of the default backend", indigen)


def _implementations(ctx):
    api = ctx.prog.module("api")
    D = api.defs
    f = ctx.method(D["AsyncActorMixin"], "__new__")

    def go(it):
        it.mods[(api.name, "_actor_implementation")] = Dct()
        how = outcome(it, "implementation", "none", "a subclass", "another class", "unregistered", "replaced")
        fail = outcome(it, "constructing", "ok", "KeyError", "ValueError")
        built = []

        class_ = {}

        def init(o):
            built.append(o)
            if fail != "ok" and how not in ("none", "unregistered"):
                it.raise_(fail)

        def mk(name, bases):
            c = Stub(name, {"bases": bases}, {}, "class")

            def new(it, a, k):
                return it.call(f, list(a), list(k))
            c.methods["__new__"] = new
            c.methods["__call__"] = lambda it, a, k: construct(c, a, k)
            class_[name] = c
            return c

        def sub(x, y):
            return x is y or any(sub(z, y) for z in x.attrs["bases"])

        def construct(c, a, k):         # type.__call__
            st, o = attempt(it, lambda: it.call(f, [c] + list(a), list(k)))
            if st == "raise":
                raise o if isinstance(o, BaseException) else Raised(o)
            if isinstance(o, Stub) and o.attrs.get("class") is not None and sub(o.attrs["class"], c):
                o.attrs["args"] = (list(a), list(k))
                init(o)
            return o
        it.stubs["issubclass"] = lambda it, a, k: sub(a[0], a[1])
        it.stubs["_BaseActor.__new__"] = it.stubs["object.__new__"] = lambda it, a, k: Stub("actor", {"class": a[0]})
        base = mk("Base", [])
        impl, other, last = mk("Impl", [base]), mk("Other", []), mk("Last", [base])
        reg = lambda a, b: it.call(D["register_actor_implementation"], [a, b], [])
        want = {"none": base, "a subclass": impl, "another class": other, "unregistered": base, "replaced": last}[how]
        if how != "none":
            reg(base, other if how == "another class" else impl)
        if how == "replaced":
            reg(base, last)
        st, _ = attempt(it, lambda: it.call(D["unregister_actor_implementation"], [other if how != "unregistered" else base], []))
        it.claim(st == "ok", "unregistering an implementation fails")
        args, kw = [V("one")], [("x", V("x"))]
        st, o = attempt(it, lambda: construct(base, args, kw))
        if fail != "ok" and how not in ("none", "unregistered"):
            it.claim(st == "raise" and err_is(it, o, fail), "the error of the constructor of an implementation is replaced by an actor of another class")
            it.claim(len(built) == 1, "an actor is constructed more than once")
            return
        it.claim(st == "ok" and isinstance(o, Stub) and o.attrs.get("class") is want, "an actor is not of the class registered to implement it")
        it.claim(len(built) == 1 and built[0] is o, "an actor is not constructed exactly once")
        it.claim(st == "ok" and isinstance(o, Stub) and o.attrs.get("args") == (args, kw), "an actor is constructed with other arguments")
        st, o2 = attempt(it, lambda: construct(impl, args, kw))
        it.claim(st == "raise" and fail != "ok" or st == "ok" and o2.attrs.get("class") is impl, "a class nothing is registered for is replaced")
    Sc(ctx, "implementation", f).run("constructing actors", go)


def _current(ctx):
    m = ctx.prog.module("context")
    f = m.defs["get_context"]

    def go(it):
        made = []
        it.stubs["ClientActorContext"] = lambda it, a, k: (made.append(1), Stub("client context"))[1]
        it.mods[(m.name, "_context")] = None
        a = it.call(f, [], [])
        b = it.call(f, [], [])
        it.claim(a is b and len(made) == 1, "the context of a process changes")
    Sc(ctx, "current", f).run("the context of a process", go)

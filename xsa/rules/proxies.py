"""C17: proxy chains, the connection chosen for them, and the wrapping of what is sent; by abstract interpretation
under an environment that decides every entry of the proxy configuration when it is first read."""
from .records import *
from ..machine import Stuck
from .redirect import _wrap, full
from .topology import mk_router, tls

ADDR = ("h:1", "h:2", "k:1")
FAR = "far:1"


def lazy(it, keys, values):
    memo = {}

    def get(key, default=None):
        if not isinstance(key, str) or key not in keys:
            return default
        if key not in memo:
            memo[key] = outcome(it, f"proxy of {key}", None, *values)
        return default if memo[key] is None else memo[key]

    def item(it, a, k):
        v = get(a[0])
        if v is None:
            it.raise_("KeyError", a[0])
        return v
    return Stub("proxy configuration", {}, {"get": lambda it, a, k: get(a[0], *a[1:]), "__getitem__": item,
                                            "__contains__": lambda it, a, k: get(a[0]) is not None, "__bool__": lambda it, a, k: True}), memo


def pref(memo_get, addr):
    for key in (addr, addr.split(":")[0], "*"):
        v = memo_get(key)
        if v and v != addr:
            return v
    return None


def chain(memo_get, addr):
    out = []
    at = addr
    while True:
        p = pref(memo_get, at)
        if p is None or p in out or p == addr:
            return out, p
        out.append(p)
        at = p


def proxies(ctx: Ctx):
    cls = ctx.prog.module("backends.router").defs["Router"]
    f = ctx.method(cls, "get_proxies")

    def go(it):
        tls(it)
        r = mk_router(it, Seq("list", [FAR]), "dummy:0", Dct())
        cfg, memo = lazy(it, ADDR + ("h", "k", "*"), ADDR)
        it.setattr(r, "_proxy_config", cfg)
        try:
            st, v = attempt(it, lambda: it.call(it.attr(r, "get_proxies"), ["h:1"], []))
        except Stuck as x:
            # the configuration has six entries and decides the next address from the last: more than 300 turns repeat
            if str(x) != "loop bound":
                raise
            it.claim(False, "computing the proxies of an address never ends")
            return
        it.claim(st == "ok", "computing the proxies of an address fails")
        if st != "ok":
            return
        got = [] if v is None else list(it.iterate(v)) if isinstance(v, Seq) else None
        it.claim(got is not None, "the proxies are not a list")
        if got is None:
            return
        # the entries that were not read must not matter: they are decided now
        def look(key):
            if key not in memo:
                memo[key] = outcome(it, f"proxy of {key}", None, *ADDR) if key in ADDR + ("h", "k", "*") else None
            return memo[key]
        want, _ = chain(look, "h:1")
        it.claim(got == want, "the proxies computed for an address are not the chain that the configuration gives, without repetition")
    Sc(ctx, "chain", f).run("every configuration over three addresses", go)

    g = ctx.method(cls, "get_client")

    def connect(it):
        tls(it)
        own = "own:1"
        where = outcome(it, "address", "another pool", "this pool", "a pool of this host")
        mapping = Dct([(FAR, "int:far")]) if where == "a pool of this host" else Dct()
        r = mk_router(it, Seq("list", [own]), "dummy:0", mapping)
        cfg, memo = lazy(it, (FAR, "far", "*", "p:1", "p:2", "p"), ("p:1", "p:2", own))
        it.setattr(r, "_proxy_config", cfg)
        opened = []
        client_stubs(it, opened)
        given = outcome(it, "route given", None, ("p:1",), ("p:1", "p:2"), ())
        dest = own if where == "this pool" else FAR
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(r, "get_client"), [dest], [("proxy_addresses", None if given is None else Seq("list", list(given)))])))
        it.claim(st == "ok" and len(opened) == 1, "no connection is opened")
        if st != "ok" or len(opened) != 1:
            return
        to = opened[0]
        if where != "another pool":
            it.claim(to == ("dummy:0" if where == "this pool" else "int:far"), "a pool of this process or host is not reached directly")
            return

        def look(key):
            if key not in memo:
                memo[key] = outcome(it, f"proxy of {key}", None, "p:1", "p:2", own) if key in (FAR, "far", "*", "p:1", "p:2", "p") else None
            return memo[key]
        if given:
            last = given[-1]
            it.claim(to in {pref(look, last) or last}, "a call with a proxy route does not go to the last proxy of the route, or to the proxy configured for it")
        else:
            p = pref(look, FAR)
            it.claim(to == (FAR if p in (None, own) else p), "a call does not go to the proxy configured for its address, or to the address when there is none")
    Sc(ctx, "connect", g).run("connection for an address", connect)

    _refs(ctx)
    _wrap(ctx)
    for kind, pc, home in (("main", main_pool(ctx), MAIN), ("sub", sub_pool(ctx), SUB1)):
        ff = ctx.method(pc, "forward")

        def hop(it, kind=kind, pc=pc):
            p = make(it, kind, pc)
            sent = []

            def call(it, a, k):
                d = dict(zip(("self", "dest", "message"), a))
                d.update({n: v for n, v in k})

                def run():
                    sent.append(d)
                    return message(it, "ResultMessage", message_id=T("mid"), result=T("reply"))
                return Coro(run, "call")
            it.stubs["AbstractActorPool.call"] = call
            inner = full(it, "SendMessage", actor_ref=ref(it, FAR, A), content=T("c"))
            raw = inner
            if outcome(it, "layers", 1, 2) == 2:
                raw = message(it, "ForwardMessage", message_id=T("mid", "original"), address="next:1", raw_message=inner)
            m = message(it, "ForwardMessage", message_id=T("mid", "original"), address="via:1", raw_message=raw)
            st, v = ask(it, p, "forward", m)
            it.claim(st == "ok" and len(sent) == 1 and sent[0]["dest"] == "via:1" and sent[0]["message"] is raw, "a hop does not pass on what it was given with exactly one layer taken off, to the address named")
        Sc(ctx, "hop", ff).run(f"a hop at a {kind} pool", hop)


def client_stubs(it, opened):
    def connect(it, a, k):
        def run():
            opened.append(a[0])
            return Stub("client", {"closed": False, "dest_address": a[0]})
        return Coro(run, "connect")
    tp = Stub("client type", {}, {"connect": connect, "parse_config": lambda it, a, k: None})
    it.stubs["communication.core.get_client_type"] = lambda it, a, k: tp
    it.stubs["core.get_client_type"] = lambda it, a, k: tp


def _refs(ctx):
    main, sub = main_pool(ctx), sub_pool(ctx)
    for kind, cls, name in (("main", main, "create_actor"), ("main", main, "actor_ref"), ("sub", sub, "create_actor"), ("sub", sub, "actor_ref")):
        f = ctx.method(cls, name)

        def go(it, kind=kind, cls=cls, name=name):
            if kind == "main":
                w = World(it, cls)
                p = w.p
            else:
                p = make(it, kind, cls)
            asked = {}

            def chain_of(it, a, k):
                addr = a[-1]
                asked[addr] = Seq("list", [f"chain of {addr}"])
                return asked[addr]
            rt = it.attr(p, "_router")
            if isinstance(rt, Stub):
                rt.methods["get_proxies"] = chain_of
            else:
                it.stubs["Router.get_proxies"] = chain_of
            if name == "create_actor" and kind == "sub":
                at = SUB1
                it.stubs["AbstractActorPool.call"] = lambda it, a, k: Coro(lambda: message(it, "ResultMessage", message_id=a[2].attrs.get("message_id"), result=True), "call")
                m = full(it, "CreateActorMessage", actor_cls=actor_class(it), actor_id=C, args=Seq("tuple", []), kwargs=Dct(), allocate_strategy=strategy(it, at))
            elif name == "create_actor":
                at = outcome(it, "hosted by", MAIN, SUB1)
                w.script = lambda addr, x: message(it, "ResultMessage", message_id=x.attrs.get("message_id"), result=ref(it, addr, C, Seq("list", [f"chain of {addr}"])))
                m = full(it, "CreateActorMessage", actor_cls=w.act, actor_id=C, args=Seq("tuple", []), kwargs=Dct(), allocate_strategy=strategy(it, at))
            elif kind == "main":
                at, uid = outcome(it, "hosted by", (MAIN, A), (SUB1, B))
                m = full(it, "ActorRefMessage", actor_ref=ref(it, MAIN, uid))
            else:
                at = SUB1
                it.setitem(it.attr(p, "_actors"), A, Stub("actor"))
                m = full(it, "ActorRefMessage", actor_ref=ref(it, SUB1, A))
            st, v = ask(it, p, name, m)
            it.claim(st == "ok" and is_msg(v, "ResultMessage"), "the reference is not given")
            if st != "ok" or not is_msg(v, "ResultMessage"):
                return
            r = v.attrs["result"]
            it.claim(r.attrs.get("address") == at, "the reference names another pool")
            it.claim(it.fz(r.attrs.get("proxy_addresses")) == it.fz(Seq("list", [f"chain of {at}"])), "a reference handed out does not carry the proxies of the address it names")
        Sc(ctx, "reference", f).run(f"{name} at a {kind} pool", go)

"""C08, C09: actor creation/destruction and the allocation records, by abstract interpretation of the handlers
from an arbitrary consistent state, for every outcome of user code and of the other pools."""
from .scen import *

A, B, C = b"actor-a", b"actor-b", b"actor-c"
FAIL = ("value", "error", "cancelled")


def user(it, key, outs=FAIL):
    """User code: returns, raises or is cancelled."""
    o = outcome(it, key, *outs)
    if o == "error":
        it.raise_("ValueError", T("user error", key))
    if o == "cancelled":
        it.raise_("CancelledError")
    return o


def strategy(it, addr):
    return it.call(it.prog.module("backends.allocate_strategy").defs["AddressSpecified"], [addr], [])


def create_msg(it, act, uid, addr, strat=None, from_main=False, args=None, kw=None):
    return message(it, "CreateActorMessage", message_id=T("mid", uid), actor_cls=act, actor_id=uid, args=args or Seq("tuple", [T("arg", uid)]),
                   kwargs=kw or Dct([("kw", T("kwarg", uid))]), allocate_strategy=strat or strategy(it, addr), from_main=from_main)


def destroy_msg(it, uid, addr, from_main=False):
    return message(it, "DestroyActorMessage", message_id=T("mid", "destroy", uid), actor_ref=ref(it, addr, uid), from_main=from_main)


def ref_msg(it, cls, uid, addr, **kw):
    return message(it, cls, message_id=T("mid", cls, uid), actor_ref=ref(it, addr, uid), **kw)


def make(it, kind, cls):
    """A pool without actors; calls to other pools go through `remote`."""
    if kind == "main":
        p = pool(it, cls)
    else:
        p = pool(it, cls, addr=SUB1, index=101, main_address=MAIN, main_pool_pid=None)
    return p


def plain_remote(it):
    """Other pools answer every message successfully."""
    def call(it, a, k):
        return Coro(lambda: message(it, "ResultMessage", message_id=a[2].attrs.get("message_id"), result=True), "call")
    it.stubs["AbstractActorPool.call"] = call


def actors(p):
    return p.attrs["_actors"]


def lifecycle(ctx: Ctx):
    for kind, cls, home in (("main", main_pool(ctx), MAIN), ("sub", sub_pool(ctx), SUB1)):
        _create(ctx, kind, cls, home)
        _destroy(ctx, kind, cls, home)
        _missing(ctx, kind, cls, home)


def _create(ctx, kind, cls, home):
    f = ctx.method(cls, "create_actor")

    def fresh(it):
        p = make(it, kind, cls)
        plain_remote(it)
        seen = []

        def post(it, o):
            seen.append((o, dict(o.attrs), dget(actors(p), A)))
            user(it, "post create hook")
        act = actor_class(it, ctor=lambda it, a, k: user(it, "constructor"), post=post)
        st, v = ask(it, p, "create_actor", create_msg(it, act, A, home))
        reg = dget(actors(p), A)
        failed = any(not x.endswith("value") for x in it.outcomes)
        if failed:
            if st == "ok":
                it.claim(is_msg(v, "ErrorMessage"), "creation is reported successful although the actor's constructor or hook failed")
            it.claim(reg is None, "an actor whose creation failed stays registered")
            return
        it.claim(st == "ok" and is_msg(v, "ResultMessage"), "creation fails although nothing went wrong")
        it.claim(len(act.made) == 1, "the actor is not constructed exactly once")
        it.claim(len(seen) == 1, "the post create hook does not run exactly once")
        if len(act.made) != 1 or len(seen) != 1 or st != "ok":
            return
        o = act.made[0]
        it.claim(reg is o, "creation is acknowledged before the actor is registered under its id")
        it.claim([freeze(x) for x in o.args] == [T("arg", A)] and [(a, freeze(b)) for a, b in o.kw] == [("kw", T("kwarg", A))], "the actor is not constructed with the arguments given")
        it.claim(seen[0][0] is o and seen[0][1].get("uid") == A and seen[0][1].get("address") == home, "the post create hook runs before the actor has its id and address")
        r = v.attrs.get("result")
        it.claim(isinstance(r, Obj) and r.attrs.get("uid") == A and r.attrs.get("address") == home, "the reference returned does not denote the actor created")
        it.claim(isinstance(r, Obj) and r.attrs.get("proxy_addresses") == T("proxies", home), "the reference returned lacks the proxy route of the pool")
    Sc(ctx, "create", f).run("creation", fresh)

    def taken(it):
        p = make(it, kind, cls)
        plain_remote(it)
        act = actor_class(it)
        ask(it, p, "create_actor", create_msg(it, act, A, home))
        first = act.made[0]
        act2 = actor_class(it, name="Act2")
        st, v = ask(it, p, "create_actor", create_msg(it, act2, A, home))
        it.claim(st == "ok" and is_msg(v, "ErrorMessage") and err_is(it, v, "ActorAlreadyExist"), "creating an actor whose id is taken does not fail with ActorAlreadyExist")
        it.claim(dget(actors(p), A) is first, "creating an actor whose id is taken disturbs the existing actor")
        it.claim(not act2.made, "an actor is constructed although its id is taken")
    Sc(ctx, "create-taken", f).run("creation under a taken id", taken)

    def racing(it):
        """a second creation under the same id while the first one runs its hook"""
        p = make(it, kind, cls)
        plain_remote(it)
        gate = it.call(("ext", "asyncio.Event"), [], [])

        def post(it, o):
            it.await_(it.call(it.attr(gate, "wait"), [], []))
            user(it, "post create hook")
        act = actor_class(it, post=post)
        t1 = it.spawn(it.call(it.attr(p, "create_actor"), [create_msg(it, act, A, home)], []), "first")
        it.drain()
        act2 = actor_class(it, name="Act2")
        st, v = ask(it, p, "create_actor", create_msg(it, act2, A, home))
        it.claim(st == "ok" and is_msg(v, "ErrorMessage"), "two actors can be created under one id at the same time")
        it.call(it.attr(gate, "set"), [], [])
        attempt(it, lambda: it.await_(t1))
        reg = dget(actors(p), A)
        ok = it.outcomes[-1].endswith("value")
        it.claim(reg is (act.made[0] if ok and act.made else None), "the actor being created is disturbed by a second creation under its id")
    Sc(ctx, "create-taken", f).run("concurrent creations under one id", racing)


def _destroy(ctx, kind, cls, home):
    f = ctx.method(cls, "destroy_actor")

    def go(it):
        p = make(it, kind, cls)
        plain_remote(it)
        at = []

        def pre(it, o):
            at.append((o, dget(actors(p), A)))
            user(it, "pre destroy hook")
        act = actor_class(it, pre=pre)
        ask(it, p, "create_actor", create_msg(it, act, A, home))
        ask(it, p, "create_actor", create_msg(it, act, B, home))
        o, other = act.made
        st, v = ask(it, p, "destroy_actor", destroy_msg(it, A, home))
        it.claim(len(at) == 1 and at[0][0] is o, "the actor's pre destroy hook does not run exactly once")
        it.claim(dget(actors(p), B) is other, "destroying an actor removes another one")
        if not at:
            return
        it.claim(at[0][1] is o, "the actor is unregistered before its pre destroy hook ran")
        if it.outcomes[-1].endswith("value"):
            it.claim(st == "ok" and is_msg(v, "ResultMessage"), "destroying an actor fails although nothing went wrong")
            it.claim(dget(actors(p), A) is None, "a destroyed actor stays reachable after the destruction is acknowledged")
            it.claim(st == "ok" and is_msg(v, "ResultMessage") and v.attrs.get("result") == A, "the acknowledgement of a destruction does not carry the actor's id")
        else:
            if st == "ok":
                it.claim(is_msg(v, "ErrorMessage"), "a failed destruction is acknowledged")
            it.claim(dget(actors(p), A) is o, "an actor whose destruction failed is unregistered")
    Sc(ctx, "destroy", f).run("destruction", go)

    def twice(it):
        """a second destruction during the first one, and another actor that gets the id when the first one is done"""
        p = make(it, kind, cls)
        plain_remote(it)
        gates = []

        def pre(it, o):
            g = it.call(("ext", "asyncio.Event"), [], [])
            gates.append(g)
            it.await_(it.call(it.attr(g, "wait"), [], []))
        act = actor_class(it, pre=pre)
        ask(it, p, "create_actor", create_msg(it, act, A, home))
        ts = []
        for n in ("first", "second"):
            ts.append(it.spawn(it.call(it.attr(p, "destroy_actor"), [destroy_msg(it, A, home)], []), n))
            it.drain()
        if not gates:
            return
        it.call(it.attr(gates[0], "set"), [], [])
        it.drain()
        new = None
        if len(gates) > 1 and outcome(it, "recreated", True, False):
            act2 = actor_class(it, name="Act2")
            ask(it, p, "create_actor", create_msg(it, act2, A, home))
            new = act2.made[0] if act2.made else None
        for g in gates[1:]:
            it.call(it.attr(g, "set"), [], [])
        rs = [attempt(it, lambda t=t: it.await_(t)) for t in ts]
        it.claim(rs[0][0] == "ok" and is_msg(rs[0][1], "ResultMessage"), "a destruction fails because the actor is also destroyed by someone else")
        it.claim(dget(actors(p), A) is new, "destroying an actor twice at the same time removes the actor that got its id")
    Sc(ctx, "destroy", f).run("concurrent destructions", twice)


def _missing(ctx, kind, cls, home):
    def go(name, mk):
        f = ctx.method(cls, name)

        def sc(it):
            p = make(it, kind, cls)
            got = []

            def call(it, a, k):
                def run():
                    got.append(a[1])
                    return message(it, "ErrorMessage", message_id=a[2].attrs.get("message_id"), address=a[1], pid=1, error_type=None,
                                   error=it.call(it.prog.module("errors").defs["ActorNotExist"], ["unknown"], []), traceback=None)
                return Coro(run, "call")
            plain_remote(it)
            ran = []
            act = actor_class(it, receive=lambda it, o, m: ran.append(o))
            ask(it, p, "create_actor", create_msg(it, act, B, home))
            it.stubs["AbstractActorPool.call"] = call
            before = len(act.made)
            st, v = ask(it, p, name, mk(it))
            if name == "has_actor":
                it.claim(st == "ok" and is_msg(v, "ResultMessage") and v.attrs.get("result") is False, "an unknown actor is reported to exist")
            else:
                it.claim(st == "ok" and is_msg(v, "ErrorMessage") and err_is(it, v, "ActorNotExist"), "an unknown actor is not reported as missing (ActorNotExist)")
            it.claim(not ran and len(act.made) == before and dget(actors(p), B) is act.made[0], "an operation on an unknown actor affects another one")
        Sc(ctx, "missing", f).run("unknown actor", sc)

        def present(it):
            p = make(it, kind, cls)
            plain_remote(it)
            ran = []

            def receive(it, o, m):
                ran.append((o, freeze(m)))
                user(it, "method")
                return T("answer", it.fz(m))
            act = actor_class(it, receive=receive)
            ask(it, p, "create_actor", create_msg(it, act, A, home))
            ask(it, p, "create_actor", create_msg(it, act, B, home))
            msg = mk(it)
            st, v = ask(it, p, name, msg)
            for _ in range(3):
                it.pause()
            if name == "has_actor":
                it.claim(st == "ok" and is_msg(v, "ResultMessage") and v.attrs.get("result") is True, "an existing actor is reported missing")
            elif name == "actor_ref":
                r = v.attrs.get("result") if is_msg(v, "ResultMessage") else None
                it.claim(isinstance(r, Obj) and r.attrs.get("uid") == A and r.attrs.get("address") == home and r.attrs.get("proxy_addresses") == T("proxies", home),
                         "looking up an actor does not return a reference to it with its proxy route")
            elif name in ("send", "tell"):
                it.claim(len(ran) == 1 and ran[0][0] is act.made[0] and ran[0][1] == freeze(msg.attrs["content"]), "the message is not delivered once, unchanged, to the actor addressed")
                if name == "send" and ran and it.outcomes[-1].endswith("value"):
                    it.claim(st == "ok" and is_msg(v, "ResultMessage") and v.attrs.get("result") == T("answer", ran[0][1]), "the reply does not carry the method's result")
                if name == "tell":
                    it.claim(st == "ok" and is_msg(v, "ResultMessage") and v.attrs.get("result") is None, "a one way message is not acknowledged without waiting for its result")
        if name != "destroy_actor":
            Sc(ctx, "present", f).run("existing actor", present)
    go("has_actor", lambda it: ref_msg(it, "HasActorMessage", A, home))
    go("actor_ref", lambda it: ref_msg(it, "ActorRefMessage", A, home))
    go("destroy_actor", lambda it: destroy_msg(it, A, home))
    go("send", lambda it: ref_msg(it, "SendMessage", A, home, content=Seq("tuple", [T("content")])))
    go("tell", lambda it: ref_msg(it, "TellMessage", A, home, content=Seq("tuple", [T("content")])))

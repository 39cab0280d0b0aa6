"""C09: the main pool's allocation records, by abstract interpretation: every operation, started in a consistent state
and under every outcome of user code and of the pool it is directed at, ends in a consistent state."""
from .lifecycle import *


class World:
    """Main pool with actor A of its own and actor B on the first sub pool."""

    def __init__(self, it, cls):
        self.it = it
        self.p = make(it, "main", cls)
        self.live = {MAIN: {}, SUB1: {}, SUB2: {}}
        self.unknown = set()
        self.sent = []
        self.script = None
        self.act = actor_class(it)
        it.stubs["AbstractActorPool.call"] = self.remote
        a = create_msg(it, self.act, A, MAIN)
        ask(it, self.p, "create_actor", a)
        self.live[MAIN][A] = a
        b = create_msg(it, self.act, B, SUB1)
        ask(it, self.p, "create_actor", b)
        self.live[SUB1][B] = b
        self.sent.clear()

    def error(self, m, name):
        it = self.it
        mod = it.prog.module("errors").defs
        e = it.call(mod[name], ["x"], []) if name in mod else Exc(name, ["x"])
        return message(it, "ErrorMessage", message_id=m.attrs.get("message_id"), address=SUB1, pid=1, error_type=None, error=e, traceback=None)

    def remote(self, it, a, k):
        addr, m = a[1], a[2]

        def run():
            self.sent.append((addr, m))
            if self.script is not None:
                r = self.script(addr, m)
                if r is not None:
                    return r
            if is_msg(m, "CreateActorMessage"):
                return message(it, "ResultMessage", message_id=m.attrs.get("message_id"), result=ref(it, addr, m.attrs.get("actor_id")))
            if is_msg(m, "DestroyActorMessage"):
                return message(it, "ResultMessage", message_id=m.attrs.get("message_id"), result=m.attrs["actor_ref"].attrs.get("uid"))
            return message(it, "ResultMessage", message_id=m.attrs.get("message_id"), result=True)
        return Coro(run, "call")

    def check(self, what):
        it, rec = self.it, self.p.attrs["_allocated_actors"]
        seen = {}
        for addr, d in items_of(rec):
            for k, v in items_of(d):
                if not (isinstance(k, Obj) and "uid" in k.attrs):
                    it.claim(False, f"{what}: an allocation slot stays reserved after the creation ended")
                    continue
                if k.attrs.get("address") != addr:
                    it.claim(False, f"{what}: an actor is recorded under an address that is not its own")
                seen.setdefault(addr, {})[k.attrs["uid"]] = v
        own = {u: 1 for u, _ in items_of(actors(self.p))}
        it.claim(set(own) == set(self.live[MAIN]), f"{what}: the actors of the main pool are not the ones created and not destroyed")
        for addr in self.live:
            for u in set(self.live[addr]) - set(seen.get(addr, ())):
                if (addr, u) not in self.unknown:
                    it.claim(False, f"{what}: a live actor of {'the main pool' if addr == MAIN else 'a sub pool'} is not recorded")
            for u in set(seen.get(addr, ())) - set(self.live[addr]):
                if (addr, u) not in self.unknown:
                    it.claim(False, f"{what}: an actor that does not exist is recorded for {'the main pool' if addr == MAIN else 'a sub pool'}")
            for u, m in self.live[addr].items():
                v = seen.get(addr, {}).get(u)
                if v is None or m is None:
                    continue
                parts = v.parts if isinstance(v, Seq) else None
                ok = parts is not None and len(parts) == 2 and is_msg(parts[1], "CreateActorMessage")
                it.claim(ok, f"{what}: the record of an actor does not hold its strategy and creation message")
                if not ok:
                    continue
                it.claim(freeze(parts[0]) == freeze(m.attrs["allocate_strategy"]), f"{what}: the record does not hold the strategy the actor was allocated with")
                for fld in ("actor_cls", "actor_id", "args", "kwargs"):
                    it.claim(it.fz(parts[1].attrs.get(fld)) == it.fz(m.attrs.get(fld)), f"{what}: the recorded creation message has lost the actor's {fld}, it cannot be created again")
                if addr != MAIN:
                    it.claim(parts[1].attrs.get("from_main") is True, f"{what}: the recorded creation message is not marked as coming from the main pool")


def records(ctx: Ctx):
    main, sub = main_pool(ctx), sub_pool(ctx)
    _main_create(ctx, main)
    _main_destroy(ctx, main)
    _notified(ctx, main)
    _asked(ctx, main)
    _slots(ctx, main)
    _sub(ctx, sub)
    _lost(ctx, main)


def _main_create(ctx, cls):
    f = ctx.method(cls, "create_actor")

    def own(it):
        w = World(it, cls)
        act = actor_class(it, ctor=lambda it, a, k: user(it, "constructor"), post=lambda it, o: user(it, "post create hook"))
        m = create_msg(it, act, C, MAIN)
        st, v = ask(it, w.p, "create_actor", m)
        if all(x.endswith("value") for x in it.outcomes):
            w.live[MAIN][C] = m
        w.check("creation in the main pool")
    Sc(ctx, "records-create", f).run("creation in the main pool", own)

    def taken(it):
        w = World(it, cls)
        ask(it, w.p, "create_actor", create_msg(it, w.act, A, MAIN, args=Seq("tuple", [T("other args")])))
        w.check("creation under a taken id")
    Sc(ctx, "records-create", f).run("creation under a taken id", taken)

    def remote(it):
        w = World(it, cls)
        m = create_msg(it, w.act, C, SUB1)

        def script(addr, x):
            o = outcome(it, "sub pool", "created", "fails", "connection lost", "cancelled")
            it.claim(addr == SUB1, "the creation is not sent to the pool allocated")
            it.claim(is_msg(x, "CreateActorMessage") and x.attrs.get("from_main") is True, "a creation passed on to a sub pool is not marked as coming from the main pool: it is registered twice")
            if o == "fails":
                return w.error(x, "ValueError")
            if o == "connection lost":
                it.raise_("ConnectionError")
            if o == "cancelled":
                it.raise_("CancelledError")
            w.live[SUB1][C] = m
            return None
        w.script = script
        st, v = ask(it, w.p, "create_actor", m)
        it.claim(len(w.sent) == 1, "the creation is not sent to exactly one pool")
        w.check("creation on a sub pool")
    Sc(ctx, "records-create", f).run("creation on a sub pool", remote)

    def taken2(it):
        w = World(it, cls)
        w.script = lambda addr, x: w.error(x, "ActorAlreadyExist")
        ask(it, w.p, "create_actor", create_msg(it, w.act, B, SUB1, args=Seq("tuple", [T("other args")])))
        w.check("creation under an id taken on a sub pool")
    Sc(ctx, "records-create", f).run("creation under an id taken on a sub pool", taken2)

    def noslot(it):
        w = World(it, cls)

        def get(it, a, k):
            it.raise_("NoIdleSlot")
        st = Stub("strategy", methods={"get_allocated_address": get}, kind="AllocateStrategy")
        s, v = ask(it, w.p, "create_actor", create_msg(it, w.act, C, SUB1, strat=st))
        it.claim(s != "ok" or is_msg(v, "ErrorMessage"), "a creation without a place is reported successful")
        w.check("creation without a place to create on")
    Sc(ctx, "records-create", f).run("no idle slot", noslot)


def _main_destroy(ctx, cls):
    f = ctx.method(cls, "destroy_actor")

    def own(it):
        w = World(it, cls)
        o = dget(actors(w.p), A)
        o.methods["__pre_destroy__"] = lambda it, a, k: Coro(lambda: user(it, "pre destroy hook"), "pre")
        st, v = ask(it, w.p, "destroy_actor", destroy_msg(it, A, MAIN))
        if it.outcomes[-1].endswith("value"):
            del w.live[MAIN][A]
        w.check("destruction in the main pool")
    Sc(ctx, "records-destroy", f).run("destruction in the main pool", own)

    for via in (MAIN, SUB1):
        def remote(it, via=via):
            w = World(it, cls)

            def script(addr, x):
                o = outcome(it, "sub pool", "destroyed", "fails", "unknown actor", "connection lost", "cancelled")
                it.claim(addr == SUB1, "the destruction is not sent to the pool of the actor")
                it.claim(is_msg(x, "DestroyActorMessage") and x.attrs.get("from_main") is True, "a destruction passed on to a sub pool is not marked as coming from the main pool: pools notify each other for ever")
                if o == "fails":
                    return w.error(x, "ValueError")
                if o in ("connection lost", "cancelled"):
                    w.unknown.add((SUB1, B))
                    it.raise_("ConnectionError" if o == "connection lost" else "CancelledError")
                w.live[SUB1].pop(B, None)
                return w.error(x, "ActorNotExist") if o == "unknown actor" else None
            w.script = script
            st, v = ask(it, w.p, "destroy_actor", destroy_msg(it, B, via))
            it.claim(len(w.sent) == 1, "the destruction is not sent to exactly one pool")
            if st == "ok" and it.outcomes and it.outcomes[-1].endswith("fails"):
                it.claim(is_msg(v, "ErrorMessage"), "a failed destruction on a sub pool is acknowledged")
            w.check("destruction on a sub pool")
        Sc(ctx, "records-destroy", f).run("destruction on a sub pool" + (" through its address" if via == SUB1 else ""), remote)

    def unknown(it):
        w = World(it, cls)
        ask(it, w.p, "destroy_actor", destroy_msg(it, C, MAIN))
        it.claim(not w.sent, "the destruction of an unknown actor is sent to some pool")
        w.check("destruction of an unknown actor")
    Sc(ctx, "records-destroy", f).run("destruction of an unknown actor", unknown)


def _asked(ctx, cls):
    """asking for an actor (without naming its pool) finds it wherever it is, and nothing else"""
    def go(it):
        w = World(it, cls)
        w.act = actor_class(it)
        c = create_msg(it, w.act, C, SUB2)
        ask(it, w.p, "create_actor", c)
        w.live[SUB2][C] = c
        who = outcome(it, "actor asked for", *[u.decode() if isinstance(u, bytes) else u for u in (A, B, C)], "unknown")
        uid = {(u.decode() if isinstance(u, bytes) else u): u for u in (A, B, C)}.get(who, b"unknown")
        st, v = ask(it, w.p, "has_actor", message(it, "HasActorMessage", message_id=T("mid", "has"), actor_ref=ref(it, MAIN, uid)))
        it.claim(st == "ok" and is_msg(v, "ResultMessage") and v.attrs.get("result") is (who != "unknown"), "the main pool does not answer rightly whether an actor exists in one of its pools")
        w.check("an actor is asked for")
    Sc(ctx, "records-asked", ctx.method(cls, "has_actor")).run("asking the main pool for an actor", go)


def _notified(ctx, cls):
    f = ctx.method(cls, "handle_control_command")

    def added(it):
        w = World(it, cls)
        m = create_msg(it, w.act, C, SUB2)
        ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "add_sub_pool_actor")
        c = message(it, "ControlMessage", message_id=T("mid", "ctl"), address=SUB2, control_message_type=ct,
                    content=Seq("tuple", [SUB2, m.attrs["allocate_strategy"], m]))
        st, v = ask(it, w.p, "handle_control_command", c)
        it.claim(st == "ok" and is_msg(v, "ResultMessage"), "the report of an actor created on a sub pool fails")
        w.live[SUB2][C] = m
        w.check("an actor created on a sub pool is reported")
    Sc(ctx, "records-notify", f).run("actor created on a sub pool", added)


def _slots(ctx, cls):
    f = ctx.method(cls, "create_actor")

    def slots(it, mk):
        rec = it.w.p.attrs["_allocated_actors"]
        return [v for _, v in items_of(dget(rec, SUB1)) if isinstance(v, Seq) and v.parts and freeze(v.parts[0]) == mk]

    def go(it):
        """two creations in progress at one address: the slot of each is reserved until it ends"""
        w = it.w = World(it, cls)
        idle = it.prog.module("backends.allocate_strategy").defs["IdleLabel"]

        def strat(mark):
            s = it.call(idle, [None, mark], [])
            return s
        it.stubs["IdleLabel.get_allocated_address"] = lambda it, a, k: SUB1
        order = outcome(it, "first to end", "first", "second")
        result = outcome(it, "first ends", "created", "fails", "connection lost")
        s1, s2 = strat("m1"), strat("m2")
        gates = {}

        def script(addr, x):
            u = x.attrs["actor_id"]
            g = gates[u] = it.call(("ext", "asyncio.Event"), [], [])
            it.claim(len(slots(it, freeze(s1 if u == A else s2))) >= 1, "no slot is reserved while the creation is in progress")
            it.await_(it.call(it.attr(g, "wait"), [], []))
            if u == A and result == "fails":
                return w.error(x, "ValueError")
            if u == A and result == "connection lost":
                it.raise_("ConnectionError")
            return None
        w.script = script
        ms = {A: create_msg(it, w.act, A, SUB1, strat=s1), C: create_msg(it, w.act, C, SUB1, strat=s2)}
        ts = {u: it.spawn(it.call(it.attr(w.p, "create_actor"), [ms[u]], []), "create") for u in (A, C)}
        it.drain()
        first, second = (A, C) if order == "first" else (C, A)
        for u in (first, second):
            if u not in gates:
                it.claim(False, "a creation is not sent to the pool allocated")
                return
            it.call(it.attr(gates[u], "set"), [], [])
            attempt(it, lambda: it.await_(ts[u]))
            if u == first:
                other = s1 if second == A else s2
                it.claim(len(slots(it, freeze(other))) >= 1, "the end of one creation releases the slot reserved for another one in progress")
            if not (u == A and result != "created"):
                w.live[SUB1][u] = ms[u]
        w.check("overlapping creations")
    Sc(ctx, "records-slot", f).run("overlapping creations", go)


def _sub(ctx, cls):
    fc, fd = ctx.method(cls, "create_actor"), ctx.method(cls, "destroy_actor")

    def spy(it):
        sent = []

        def call(it, a, k):
            def run():
                sent.append((a[1], a[2]))
                return message(it, "ResultMessage", message_id=a[2].attrs.get("message_id"), result=True)
            return Coro(run, "call")
        it.stubs["AbstractActorPool.call"] = call
        return sent

    def create(it):
        p = make(it, "sub", cls)
        sent = spy(it)
        fm = outcome(it, "requested by", "main pool", "user") == "main pool"
        act = actor_class(it, ctor=lambda it, a, k: user(it, "constructor"), post=lambda it, o: user(it, "post create hook"))
        m = create_msg(it, act, A, SUB1, from_main=fm)
        ask(it, p, "create_actor", m)
        failed = not all(x.endswith("value") for x in it.outcomes[1:])
        if fm:
            it.claim(not sent, "an actor the main pool asked for is reported to it a second time")
            return
        if failed:
            it.claim(not sent, "an actor that could not be created is reported to the main pool")
            return
        it.claim(len(sent) == 1, "an actor created on a sub pool is not reported to the main pool exactly once")
        if len(sent) == 1:
            to, c = sent[0]
            ct = c.attrs.get("control_message_type")
            want = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "add_sub_pool_actor")
            it.claim(to == MAIN, "the creation is not reported to the main pool")
            it.claim(is_msg(c, "ControlMessage") and it.fz(ct) == it.fz(want), "the creation is reported with the wrong message")
            ps = c.attrs.get("content")
            ps = ps.parts if isinstance(ps, Seq) else []
            it.claim(len(ps) == 3 and ps[0] == SUB1 and freeze(ps[1]) == freeze(m.attrs["allocate_strategy"]) and is_msg(ps[2], "CreateActorMessage") and ps[2].attrs.get("actor_id") == A
                     and it.fz(ps[2].attrs.get("args")) == it.fz(m.attrs["args"]), "the report lacks the actor's address, strategy or creation message")
    Sc(ctx, "records-report", fc).run("creation on the sub pool", create)

    def taken(it):
        p = make(it, "sub", cls)
        sent = spy(it)
        act = actor_class(it)
        ask(it, p, "create_actor", create_msg(it, act, A, SUB1))
        sent.clear()
        ask(it, p, "create_actor", create_msg(it, act, A, SUB1))
        it.claim(not sent, "an actor that could not be created is reported to the main pool")
    Sc(ctx, "records-report", fc).run("creation under a taken id", taken)

    def destroy(it):
        p = make(it, "sub", cls)
        sent = spy(it)
        fm = outcome(it, "requested by", "main pool", "user") == "main pool"
        act = actor_class(it, pre=lambda it, o: user(it, "pre destroy hook"))
        ask(it, p, "create_actor", create_msg(it, act, A, SUB1))
        sent.clear()
        ask(it, p, "destroy_actor", destroy_msg(it, A, SUB1, from_main=fm))
        failed = not it.outcomes[-1].endswith("value")
        if fm or failed:
            it.claim(not sent, "a destruction " + ("the main pool asked for" if fm else "that failed") + " is reported to the main pool")
            return
        it.claim(len(sent) == 1, "a destroyed actor is not reported to the main pool exactly once")
        if len(sent) == 1:
            to, m = sent[0]
            it.claim(to == MAIN, "the destruction is not reported to the main pool")
            it.claim(is_msg(m, "DestroyActorMessage") and m.attrs["actor_ref"].attrs.get("uid") == A and m.attrs["actor_ref"].attrs.get("address") == SUB1, "the destruction is reported with the wrong message")
    Sc(ctx, "records-report", fd).run("destruction on the sub pool", destroy)


def _lost(ctx, cls):
    f = ctx.method(cls, "process_sub_pool_lost")

    def go(it):
        w = World(it, cls)
        mode = it.fault("auto recover", "actor", "process", False)
        it.setattr(w.p, "_auto_recover", mode)
        it.call(it.attr(w.p, "process_sub_pool_lost"), [SUB1], [])
        if mode != "actor":
            w.live[SUB1].clear()
        w.check("a sub pool died" + ("" if mode == "actor" else " and its actors are not recovered"))
        it.claim(dget(w.p.attrs["_allocated_actors"], SUB1) is not None, "the address of a dead sub pool that is restarted has no records")
    Sc(ctx, "records-lost", f).run("sub pool lost", go)

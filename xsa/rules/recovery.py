"""C11: detection and recovery of dead sub pools, by abstract interpretation of the monitor and of the recovery
under every recovery mode, outcome of restart, re-creation and user callbacks."""
from .topology import *


class Lab(Group):
    """Two sub pools; A and C are recorded for the first, B for the second; what happens is logged in order."""

    def __init__(self, it, cls, mode, down=("value",), start=("started",), create=("value",), up=("value",)):
        super().__init__(it, cls)
        p = self.p
        it.setattr(p, "_auto_recover", mode)
        self.tl = []
        self.delay = 0
        self.made = {}
        rec = it.attr(p, "_allocated_actors")
        act = actor_class(it)
        self.msgs = {}
        it.setitem(dget(rec, SUB1), Stub("first slot"), Seq("tuple", [strategy(it, SUB1), None]))
        for u, a in ((A, SUB1), (C, SUB1), (B, SUB2)):
            m = create_msg(it, act, u, a, from_main=True)
            self.msgs[u] = m
            it.setitem(dget(rec, a), ref(it, a, u), Seq("tuple", [m.attrs["allocate_strategy"], m]))
        it.setitem(dget(rec, SUB1), Stub("slot"), Seq("tuple", [strategy(it, SUB1), None]))

        def cb(kind, outs):
            def f(it, a, k):
                self.tl.append((kind, a[1] if len(a) > 1 else None))
                it.claim(len(a) == 2 and a[0] is p and a[1] in (SUB1, SUB2), f"the {kind} callback is not called with the pool and the address")
                if a[1] == SUB1:
                    user(it, f"{kind} callback", outs)
            return Native(f, kind)
        it.setattr(p, "_on_process_down", cb("down", down))
        it.setattr(p, "_on_process_recover", cb("up", up))

        def starter(it, a, k):
            d = dict(zip(("actor_pool_config", "process_index", "start_python"), a[-2:]))
            d.update({n: v for n, v in k})

            def run():
                addr = {101: SUB1, 102: SUB2}.get(d.get("process_index"))
                it.claim(addr is not None and d.get("actor_pool_config") is it.attr(p, "_config"), "a sub pool is not restarted with its own configuration")
                o = outcome(it, "restart", *start) if addr == SUB1 else "started"
                it.pause()
                if self.delay:
                    it.await_(it.call(("ext", "asyncio.sleep"), [self.delay], []))
                if o == "fails":
                    self.tl.append(("nostart", addr))
                    it.raise_("OSError")
                self.tl.append(("start", addr))
                pr = Stub("new process", {"returncode": None})
                self.made.setdefault(addr, []).append(pr)
                return Seq("tuple", [pr, Seq("list", [addr])])
            return Coro(run, "start")
        it.stubs["MainActorPool.start_sub_pool"] = starter

        def sent(addr, m):
            if is_msg(m, "CreateActorMessage"):
                self.tl.append(("create", addr, m.attrs.get("actor_id")))
                ok = self.msgs.get(m.attrs.get("actor_id"))
                it.claim(ok is not None and ok.attrs["allocate_strategy"].attrs.get("address", addr) == addr and all(it.fz(ok.attrs[n]) == it.fz(m.attrs.get(n)) for n in ("actor_cls", "args", "kwargs")),
                         "an actor is recreated with something else than what it was created with")
                it.claim(m.attrs.get("from_main") is True, "an actor recreated is reported back as a new one")
                it.pause()
                if addr == SUB1 and outcome(it, f"re-creation of {m.attrs.get('actor_id')}", *create) != "value":
                    it.raise_("ConnectionError")
            return None
        self.fail = sent

    def monitor(self, rounds=3):
        it, p = self.it, self.p
        t = it.spawn(it.call(it.attr(p, "monitor_sub_pools"), [], []), "monitor")

        def end():
            it.await_(it.call(("ext", "asyncio.sleep"), [0.5 * rounds - 0.2], []))
            it.call(it.attr(it.attr(p, "_stopped"), "set"), [], [])
        it.spawn(Coro(end, "end"), "end")
        return t

    def at(self, t, fn):
        def body():
            self.it.await_(self.it.call(("ext", "asyncio.sleep"), [t], []))
            fn()
        self.it.spawn(Coro(body, "at"), "at")

    def die(self, addr):
        dget(self.it.attr(self.p, "sub_processes"), addr).attrs["returncode"] = 1

    def wait(self, addr):
        it = self.it
        ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "wait_pool_recovered")

        def body():
            st, v = ask(it, self.p, "handle_control_command", message(it, "ControlMessage", message_id=T("wait"), address=addr, control_message_type=ct, content=None))
            self.tl.append(("released", addr))
        it.spawn(Coro(body, "waiter"), "waiter")

    def of(self, addr):
        return [e for e in self.tl if e[1] == addr]


def recovery(ctx: Ctx):
    cls = indigen(ctx)
    f = ctx.method(cls, "monitor_sub_pools")
    fr = ctx.method(cls, "recover_sub_pool")

    def normal(it):
        mode = outcome(it, "auto recover", "actor", "process", False)
        w = Lab(it, cls, mode)
        w.die(SUB1)
        w.wait(SUB1)
        w.wait(SUB1)
        t = w.monitor(2 if mode else 1)
        attempt(it, lambda: it.await_(t))
        ev = [e[0] for e in w.of(SUB1) if e[0] != "released"]
        made = [e[2] for e in w.of(SUB1) if e[0] == "create"]
        if mode is False:
            it.claim("start" not in ev and not made, "a dead sub pool is restarted although recovery is off")
            it.claim(ev[:1] == ["down"], "the process down callback is not called")
        else:
            it.claim(ev.count("start") == 1, "a dead sub pool is not restarted exactly once")
            it.claim(sorted(made) == (sorted([A, C]) if mode == "actor" else []), "not exactly the actors recorded for a dead sub pool are recreated" if mode == "actor" else "actors are recreated although only processes are to be recovered")
            it.claim(ev.count("down") == 1 and ev.count("up") == 1, "the user's callbacks are not called once each")
            it.claim(ev == ["down", "start"] + ["create"] * len(made) + ["up"], "restart, re-creation of the actors and callbacks are out of order")
            it.claim(len(w.made.get(SUB1, ())) == 1 and dget(it.attr(w.p, "sub_processes"), SUB1) is w.made[SUB1][0], "the process table does not hold the restarted process under its address")
            order = [e[0] for e in w.of(SUB1)]
            it.claim(order.count("released") == 2, "those waiting for the recovery are never released")
            if "released" in order and "up" in order:
                it.claim(order.index("released") > max(order.index("up"), *[i for i, e in enumerate(order) if e in ("start", "create")] or [0]), "those waiting for the recovery are released before it is complete")
        it.claim(not w.of(SUB2), "a healthy sub pool is restarted")
        rec = dget(it.attr(w.p, "_allocated_actors"), SUB1)
        it.claim((len([1 for _, v in items_of(rec) if v.parts[1] is not None]) == 2) if mode == "actor" else not items_of(rec), "the records of a dead sub pool do not match the actors recovered")
    Sc(ctx, "recover", f).run("a sub pool dies", normal)

    def later(it):
        """a sub pool that dies after it was recovered, or after another one was handled"""
        w = Lab(it, cls, "actor")
        w.die(SUB1)
        first = outcome(it, "second death", SUB1, SUB2)
        w.at(0.7, lambda: w.die(first))
        t = w.monitor(3)
        attempt(it, lambda: it.await_(t))
        it.claim([e[0] for e in w.of(first)].count("start") == (2 if first == SUB1 else 1), "a sub pool that dies later is not recovered")
        want = {SUB1: 2 * [A, C], SUB2: [B]}[first]
        it.claim(sorted(e[2] for e in w.of(first) if e[0] == "create") == sorted(want), "the actors of a sub pool that dies later are not all recreated")
    Sc(ctx, "recover", f).run("repeated deaths", later)

    def errors(it):
        kind = outcome(it, "failure", "down callback", "restart", "re-creation", "up callback")
        kw = {"down callback": dict(down=("error",)), "restart": dict(start=("fails", "started")), "re-creation": dict(create=("error",)), "up callback": dict(up=("error",))}[kind]
        w = Lab(it, cls, "actor", **kw)
        w.die(SUB1)
        w.wait(SUB1)
        w.at(0.7, lambda: w.die(SUB2))
        t = w.monitor(4)
        attempt(it, lambda: it.await_(t))
        it.claim("start" in [e[0] for e in w.of(SUB2)], f"an error while handling one sub pool ({kind}) stops the recovery of the others")
        order = [e[0] for e in w.of(SUB1)]
        if "released" in order:
            it.claim("start" in order and order.index("released") > order.index("start"), "those waiting for the recovery are released although the sub pool was not restarted")
        if kind == "restart" and "started" in str(it.outcomes[1:]):
            it.claim("start" in order, "a sub pool whose restart failed is not restarted later")
            it.claim(sorted(e[2] for e in w.of(SUB1) if e[0] == "create") == sorted([A, C]), "the actors of a sub pool whose first restart failed are not recreated")
    Sc(ctx, "isolate", f).run("an error while handling one sub pool", errors, max_paths=2000)

    def stopping(it):
        w = Lab(it, cls, "actor")
        when = outcome(it, "the pool is stopped", "before the death is noticed", "while stopping sub pools", "during a recovery")
        it.stubs["MainActorPoolBase.stop_sub_pools"] = lambda it, a, k: Coro(lambda: (w.die(SUB1), w.die(SUB2), it.await_(it.call(("ext", "asyncio.sleep"), [2], [])))[0], "stop_sub_pools")
        t = it.spawn(it.call(it.attr(w.p, "monitor_sub_pools"), [], []), "monitor")
        it.setattr(w.p, "_monitor_task", t)
        it.await_(it.call(("ext", "asyncio.sleep"), [0.1], []))
        if when.startswith("before"):
            w.die(SUB1)
        if when.startswith("during"):
            w.die(SUB1)
            w.delay = 1
            it.await_(it.call(("ext", "asyncio.sleep"), [0.6], []))
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(w.p, "stop"), [], [])))
        it.await_(it.call(("ext", "asyncio.sleep"), [3], []))
        it.claim(st == "ok", f"stopping the pool fails ({cname(v)})")
        it.claim("start" not in [e[0] for e in w.tl], "a sub pool is restarted while the pool is stopping")
        it.claim(t.done, "the monitor is still running after the pool was stopped")
    Sc(ctx, "stopping", f).run("the pool is stopped", stopping)

    def direct(it):
        """recovery while actors are created and destroyed on the sub pool"""
        w = Lab(it, cls, "actor")
        rec = dget(it.attr(w.p, "_allocated_actors"), SUB1)
        base = w.fail
        change = outcome(it, "meanwhile", "an actor is created", "an actor is destroyed")

        def sent(addr, m):
            r = base(addr, m)
            if change == "an actor is created":
                it.setitem(rec, ref(it, SUB1, b"other"), Seq("tuple", [T("strategy"), None]))
            else:
                for k in list(rec.items):
                    if isinstance(getattr(k, "v", k), Obj) and getattr(k, "v", k).attrs.get("uid") == m.attrs.get("actor_id"):
                        del rec.items[k]
            return r
        w.fail = sent
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(w.p, "recover_sub_pool"), [SUB1], [])))
        it.claim(st == "ok", f"recovery fails if meanwhile {change} ({cname(v)})")
        it.claim({e[2] for e in w.of(SUB1) if e[0] == "create"} == {A, C}, f"not all actors are recreated if meanwhile {change}")
    Sc(ctx, "concurrent", fr).run("records change during the recovery", direct)

    def started(it):
        """the main pool watches its sub pools from its start to its stop, in every recovery mode"""
        mode = outcome(it, "auto recover", "actor", "process", False)
        w = Lab(it, cls, mode)
        p = w.p
        it.setattr(p, "_servers", Seq("list", []))
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(p, "start"), [], [])))
        it.claim(st == "ok", f"a main pool cannot be started ({cname(v)})")
        if outcome(it, "asked again for the monitor", False, True):
            t = attempt(it, lambda: it.await_(it.call(it.attr(p, "start_monitor"), [], [])))
            it.claim(t[0] == "ok", "the monitor cannot be asked for twice")
        w.die(SUB1)
        it.await_(it.call(("ext", "asyncio.sleep"), [1.2], []))
        es = [e[0] for e in w.of(SUB1)]
        it.claim("down" in es, "nobody notices that a sub pool of a started main pool died")
        it.claim(es.count("start") == (1 if mode else 0), "a sub pool that died is not restarted exactly once, as the recovery mode says")
        it.call(it.attr(it.attr(p, "_stopped"), "set"), [], [])
        it.await_(it.call(("ext", "asyncio.sleep"), [1], []))
    Sc(ctx, "recover", ctx.method(cls, "start")).run("a main pool is started", started)

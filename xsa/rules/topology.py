"""C10: sub pool registry, configuration, records and routes, by abstract interpretation of the lifecycle operations
of the main pool (real configuration and router objects; processes, transports and other pools nondeterministic)."""
from .records import *

NEW, NEWINT = "new:9", "int:new"


def tls(it):
    it.stubs["threading.local"] = lambda it, a, k: Stub("local", {})


def rcls(it):
    return it.prog.module("backends.router").defs["Router"]


def mk_router(it, addrs, local, mapping, **kw):
    return it.call(rcls(it), [], list(dict(external_addresses=addrs, local_address=local, mapping=mapping, **kw).items()))


class Group:
    """Main pool of a group of three processes, with real configuration, router and global router."""

    def __init__(self, it, cls, sub=False):
        tls(it)
        self.it = it
        self.cfg = config(it, labels=["main", "l1", "l2"])
        mp = it.attr(self.cfg, "external_to_internal_address_map")
        self.r = mk_router(it, Seq("list", [SUB1 if sub else MAIN]), "dummy:0", mp if not sub else Dct(list((k, v) for k, v in items_of(mp))))
        self.g = mk_router(it, Seq("list", []), None, Dct())
        it.stubs["Router.get_instance"] = lambda it, a, k: self.g
        it.stubs["Router.get_instance_or_empty"] = lambda it, a, k: self.g
        self.sent = []
        self.fail = lambda addr, m: None
        self.log = []

        def call(it, a, k):
            addr, m = a[1], a[2]
            it.claim(isinstance(m, Obj) and "message_id" in m.attrs, "something that is not a message is sent to a pool")
            if not isinstance(m, Obj):
                it.raise_("AttributeError")

            def run():
                for _ in range(5 if addr == SUB2 else 0):
                    it.pause()
                self.sent.append((addr, m))
                self.log.append(("send", addr, m))
                r = self.fail(addr, m)
                return r if r is not None else message(it, "ResultMessage", message_id=m.attrs.get("message_id"), result=True)
            return Coro(run, "call")
        it.stubs["AbstractActorPool.call"] = call
        if sub:
            self.p = pool(it, cls, addr=SUB1, index=101, cfg=self.cfg, router=self.r, main_address=MAIN, main_pool_pid=None)
        else:
            self.p = pool(it, cls, addr=MAIN, index=100, cfg=self.cfg, router=self.r)
        it.call(it.attr(self.g, "add_router"), [self.r], [])
        self.procs = {a: Stub("process " + a, {"returncode": None, "pid": T("pid", a)}) for a in (MAIN, SUB1, SUB2, NEW)}
        if not sub:
            for a in (SUB1, SUB2):
                it.call(it.attr(self.p, "attach_sub_process"), [a, self.procs[a]], [])

    def route(self, r, addr):
        return self.it.call(self.it.attr(r, "get_internal_address"), [addr], [])

    def pools(self):
        """process index -> external addresses as configured"""
        it = self.it
        out = {}
        for i in it.parts_of(it.call(it.attr(self.cfg, "get_process_indexes"), [], [])):
            c = it.call(it.attr(self.cfg, "get_pool_config"), [i], [])
            out[i] = it.parts_of(dget(c, "external_address"))
        return out

    def consistent(self, what, subs, stale=()):
        """process table, records, configuration and routes name the same sub pools"""
        it, p = self.it, self.p
        want = set(subs)
        cfg = it.attr(p, "_config")
        it.claim(isinstance(cfg, Obj) and cfg.cls is self.cfg.cls, f"{what}: the pool's configuration is replaced by something else")
        if not isinstance(cfg, Obj):
            return
        conf = {a for v in self.pools().values() for a in v} - {MAIN}
        it.claim(conf == want, f"{what}: the configured sub pools are not the existing ones")
        it.claim({k for k, _ in items_of(it.attr(p, "sub_processes"))} == want, f"{what}: the process table does not hold the existing sub pools")
        it.claim({k for k, _ in items_of(it.attr(p, "_allocated_actors"))} - {MAIN} == want, f"{what}: there are allocation records for other addresses than the existing sub pools")
        mp = {k: v for k, v in items_of(it.attr(cfg, "external_to_internal_address_map"))}
        it.claim(set(mp) == want | {MAIN}, f"{what}: the address mapping does not cover the existing pools")
        for a in want | {MAIN}:
            it.claim(mp.get(a) is not None and self.route(self.r, a) == (mp[a] if a != MAIN else "dummy:0"), f"{what}: the pool's router does not route to an existing pool")
            it.claim(self.route(self.g, a) == (mp.get(a) if a != MAIN else "dummy:0"), f"{what}: the global router does not route to an existing pool")
        for a in stale:
            it.claim(self.route(self.r, a) is None, f"{what}: the pool's router still routes to a removed pool")

    def synced(self, what, subs, not_to=()):
        it = self.it
        ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "sync_config")
        to = [a for a, m in self.sent if is_msg(m, "ControlMessage") and it.fz(m.attrs["control_message_type"]) == it.fz(ct)]
        it.claim(set(to) >= set(subs), f"{what}: a sub pool is not told the new configuration")
        it.claim(len(to) == len(set(to)), f"{what}: a sub pool is told the new configuration twice")
        it.claim(not set(to) - set(subs), f"{what}: a pool that was removed is told the new configuration")
        for a, m in self.sent:
            if is_msg(m, "ControlMessage") and it.fz(m.attrs["control_message_type"]) == it.fz(ct):
                it.claim(m.attrs.get("content") is self.cfg, f"{what}: a sub pool is told something else than the configuration")
                it.claim(m.attrs.get("address") == MAIN, f"{what}: the configuration does not name the main pool as its sender")


def topology(ctx: Ctx):
    main, sub, concrete = main_pool(ctx), sub_pool(ctx), indigen(ctx)
    _config(ctx)
    _attach(ctx, concrete)
    _append(ctx, concrete)
    _remove(ctx, concrete)
    _create(ctx, concrete)
    _synced(ctx, sub)


def indigen(ctx):
    return ctx.prog.module("backends.indigen.pool").defs["MainActorPool"]


def _config(ctx):
    cls = ctx.prog.module("backends.config").defs["ActorPoolConfig"]

    def agree(it, c, want, what):
        """want: {index: (label, internal, [addresses])}"""
        g = lambda n, *a: it.call(it.attr(c, n), list(a), [])  # noqa: E731
        idx = it.parts_of(g("get_process_indexes"))
        it.claim(list(idx) == list(want), f"{what}: the process indexes are not those of the configured pools, in order")
        it.claim(it.attr(c, "n_pool") == len(want), f"{what}: n_pool is not the number of configured pools")
        if list(idx) != list(want):
            return
        mp = {k: v for k, v in items_of(it.attr(c, "external_to_internal_address_map"))}
        it.claim(set(mp) == {a for _, _, x in want.values() for a in x}, f"{what}: the mapping does not hold exactly the external addresses of the configured pools")
        for i, (lab, internal, addrs) in want.items():
            it.claim(g("get_external_address", i) == addrs[0], f"{what}: get_external_address does not return the pool's first address")
            for a in addrs:
                it.claim(attempt(it, lambda: g("get_process_index", a)) == ("ok", i), f"{what}: get_process_index does not find the pool by its address")
                it.claim(mp.get(a) == internal, f"{what}: an external address is not mapped to the internal address of its pool")
            pc = g("get_pool_config", i)
            it.claim(dget(pc, "label") == lab and dget(pc, "internal_address") == internal and list(it.parts_of(dget(pc, "external_address"))) == addrs, f"{what}: get_pool_config does not return the pool's settings")
        it.claim(list(it.parts_of(g("get_external_addresses"))) == [x[2][0] for x in want.values()], f"{what}: get_external_addresses does not list every pool, in order")
        for lab in ("a", "b", "none"):
            it.claim(list(it.parts_of(it.call(it.attr(c, "get_external_addresses"), [], [("label", lab)]))) == [x[2][0] for x in want.values() if x[0] == lab],
                     f"{what}: get_external_addresses does not select by label")

    def go(it):
        c = it.call(cls, [], [])
        g = lambda n, *a, **k: it.call(it.attr(c, n), list(a), list(k.items()))  # noqa: E731
        kw = dict(env=T("env"), modules=T("modules"), suspend_sigint=T("ss"), use_uvloop=T("uv"), logging_conf=T("lc"), kwargs=Dct([("k", 1)]))
        want = {7: ("a", "i7", ["e7"]), 3: ("b", "i3", ["e3", "f3"]), 5: ("a", "i5", ["e5"])}
        g("add_pool_conf", 7, "a", "i7", "e7", **kw)
        g("add_pool_conf", 3, "b", "i3", Seq("list", ["e3", "f3"]))
        g("add_pool_conf", 5, "a", "i5", "e5")
        agree(it, c, want, "after adding pools")
        pc = g("get_pool_config", 7)
        for n, v in kw.items():
            it.claim(dget(pc, n) is v or freeze(dget(pc, n)) == freeze(v), f"add_pool_conf loses the pool's {n}")
        op = it.fault("operation", "remove", "remove multi", "reset", "reset list")
        if op == "remove":
            g("remove_pool_config", 7)
            del want[7]
        elif op == "remove multi":
            g("remove_pool_config", 3)
            del want[3]
        elif op == "reset":
            g("reset_pool_external_address", 3, "n3")
            want[3] = ("b", "i3", ["n3"])
        else:
            g("reset_pool_external_address", 5, Seq("list", ["n5", "m5"]))
            want[5] = ("a", "i5", ["n5", "m5"])
        agree(it, c, want, {"remove": "after removing a pool", "remove multi": "after removing a pool with several addresses", "reset": "after changing a pool's address", "reset list": "after changing a pool's addresses"}[op])
    Sc(ctx, "config", ctx.method(cls, "add_pool_conf")).run("configuration lookups agree", go)

    def same(it):
        """internal address equal to the external one"""
        c = it.call(cls, [], [])
        it.call(it.attr(c, "add_pool_conf"), [7, "a", "e7", "e7"], [])
        it.call(it.attr(c, "reset_pool_external_address"), [7, "n7"], [])
        mp = {k: v for k, v in items_of(it.attr(c, "external_to_internal_address_map"))}
        it.claim(mp == {"n7": "n7"}, "changing the address of a pool that has no separate internal address leaves it mapped to its old one")
    Sc(ctx, "config", ctx.method(cls, "reset_pool_external_address")).run("address change without internal address", same)


def _attach(ctx, cls):
    def go(it):
        w = Group(it, cls)
        it.claim(it.fault("x", 0) == 0, "")
        act = actor_class(it)
        m = create_msg(it, act, B, NEW)
        ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "add_sub_pool_actor")
        reported = outcome(it, "sub pool reports an actor before it is attached", True, False)
        rec = it.attr(w.p, "_allocated_actors")
        if reported:
            it.setitem(rec, NEW, Dct([(ref(it, NEW, B), Seq("tuple", [m.attrs["allocate_strategy"], m]))]))
        it.call(it.attr(w.p, "attach_sub_process"), [NEW, w.procs[NEW]], [])
        it.claim(dget(it.attr(w.p, "sub_processes"), NEW) is w.procs[NEW], "the process attached is not in the process table")
        d = dget(rec, NEW)
        it.claim(isinstance(d, Dct) and len(items_of(d)) == (1 if reported else 0), "attaching a sub pool does not keep the records of its actors")
    Sc(ctx, "attach", ctx.method(cls, "attach_sub_process")).run("attaching a sub pool", go)


def _append(ctx, cls):
    f = ctx.method(cls, "append_sub_pool")

    def go(it):
        w = Group(it, cls)
        asked = []
        uv, sig = outcome(it, "use_uvloop", "not given", False, True), outcome(it, "suspend_sigint", True, False)
        lconf = Dct([("level", "DEBUG")]) if outcome(it, "logging", "not given", "given") == "given" else None
        last = it.call(it.attr(w.cfg, "get_pool_config"), [list(it.iterate(it.call(it.attr(w.cfg, "get_process_indexes"), [], [])))[-1]], [])
        last_uv = outcome(it, "use_uvloop of the last pool", True, False)
        it.setitem(last, "use_uvloop", last_uv)
        it.setitem(last, "logging_conf", "conf of the last pool")

        def start(it, a, k):
            def run():
                d = dict(zip(("actor_pool_config", "process_index", "start_python"), a[-3:] if len(a) >= 3 else a))
                d.update({n: v for n, v in k})
                asked.append(d)
                o = outcome(it, "process", "started", "fails", "cancelled")
                if o == "fails":
                    it.raise_("OSError")
                if o == "cancelled":
                    it.raise_("CancelledError")
                return Seq("tuple", [w.procs[NEW], Seq("list", [NEW])])
            return Coro(run, "start")
        it.stubs["MainActorPool._create_sub_pool_from_parent"] = start
        it.stubs["MainActorPool.get_external_addresses"] = lambda it, a, k: Seq("list", [MAIN, "host:0"])
        it.stubs["MainActorPool.gen_internal_address"] = lambda it, a, k: NEWINT
        for n in ("AbstractActorPool", "ActorPoolBase", "MainActorPoolBase", "MainActorPool"):
            it.stubs[n + ".process_index_gen"] = lambda it, a, k: it.seq_gen([777])
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(w.p, "append_sub_pool"), [], [("label", "lab"), ("env", T("env")), ("modules", T("modules")), ("start_python", T("python")), ("suspend_sigint", sig), ("kwargs", Dct([("x", 1)])), *([("use_uvloop", uv)] if uv != "not given" else []), *([("logging_conf", lconf)] if lconf else [])])))
        if not it.outcomes or not any(o == "process: started" for o in it.outcomes):
            it.claim(st == "raise", "appending a sub pool is reported successful although its process did not start")
            w.consistent("a sub pool could not be appended", (SUB1, SUB2))
            return
        it.claim(st == "ok" and v == NEW, "appending a sub pool does not return the address it listens on")
        if st != "ok":
            return
        w.consistent("a sub pool was appended", (SUB1, SUB2, NEW))
        w.synced("a sub pool was appended", (SUB1, SUB2, NEW))
        it.claim(dget(it.attr(w.p, "sub_processes"), NEW) is w.procs[NEW], "the process table does not hold the process of the appended pool under its address")
        it.claim(len(asked) == 1 and asked[0].get("process_index") == 777 and asked[0].get("actor_pool_config") is w.cfg, "the process of the appended pool is not started with the pool's configuration")
        it.claim(len(asked) == 1 and freeze(asked[0].get("start_python")) == T("python"), "the appended pool is not started with the interpreter given")
        pc = it.call(it.attr(w.cfg, "get_pool_config"), [777], [])
        it.claim(dget(pc, "label") == "lab" and freeze(dget(pc, "env")) == T("env") and freeze(dget(pc, "modules")) == T("modules") and dget(pc, "internal_address") == NEWINT, "the appended pool is not configured as asked")
        it.claim(dget(pc, "suspend_sigint") is sig and isinstance(dget(pc, "kwargs"), Dct) and dget(dget(pc, "kwargs"), "x") == 1, "the appended pool is not configured as asked")
        it.claim(dget(pc, "use_uvloop") is (last_uv if uv == "not given" else uv), "the appended pool does not use the event loop asked for, or else that of the other pools")
        lc = dget(pc, "logging_conf")
        it.claim(lc == "conf of the last pool" if lconf is None else isinstance(lc, Dct) and items_of(lc) == items_of(lconf), "the logs of the appended pool are not configured as asked, or else as those of the other pools")
    Sc(ctx, "append", f).run("appending a sub pool", go)


def _remove(ctx, cls):
    f = ctx.method(cls, "remove_sub_pool")

    def go(it):
        w = Group(it, cls)
        stopped = []

        def stop(it, a, k):
            def run():
                d = dict(zip(("address", "process", "timeout", "force"), a[1:]))
                d.update({n: v for n, v in k})
                stopped.append(d)
                it.claim(all(x != SUB1 for x, _ in items_of(it.attr(w.p, "sub_processes"))), "while a removed sub pool stops, the monitor takes it for one that died")
                it.pause()
            return Coro(run, "stop")
        it.stubs["MainActorPoolBase.stop_sub_pool"] = stop
        rec = it.attr(w.p, "_allocated_actors")
        it.setitem(dget(rec, SUB1), ref(it, SUB1, B), Seq("tuple", [T("strategy"), None]))
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(w.p, "remove_sub_pool"), [SUB1], [("timeout", T("timeout")), ("force", T("force"))])))
        it.claim(st == "ok", "removing a sub pool fails")
        w.consistent("a sub pool was removed", (SUB2,), stale=(SUB1,))
        w.synced("a sub pool was removed", (SUB2,))
        it.claim(len(stopped) == 1 and stopped[0].get("address") == SUB1 and stopped[0].get("process") is w.procs[SUB1], "the process of the removed pool is not stopped")
        it.claim(len(stopped) == 1 and freeze(stopped[0].get("timeout")) == T("timeout") and freeze(stopped[0].get("force")) == T("force"), "the removed pool is not stopped the way asked for (timeout, force)")
    Sc(ctx, "remove", f).run("removing a sub pool", go)

    def unknown(it):
        w = Group(it, cls)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(w.p, "remove_sub_pool"), ["nobody:1"], [])))
        it.claim(st == "raise", "removing an unknown sub pool is reported successful")
        w.consistent("an unknown sub pool was to be removed", (SUB1, SUB2))
    Sc(ctx, "remove", f).run("removing an unknown sub pool", unknown)


def _create(ctx, cls):
    f = ctx.method(cls, "create")

    def go(it):
        tls(it)
        cfg = config(it, addrs=("main:?", "sub:?1", "sub:?2"), labels=["main", "l1", "l2"])
        order = outcome(it, "first sub pool ready", 101, 102)
        g = mk_router(it, Seq("list", []), None, Dct())
        it.stubs["Router.get_instance"] = lambda it, a, k: g
        it.stubs["Router.get_instance_or_empty"] = lambda it, a, k: g
        it.stubs["Router.set_instance"] = lambda it, a, k: None
        it.stubs["gen_local_address"] = it.stubs["backends.communication.gen_local_address"] = lambda it, a, k: "dummy:0"
        procs = {101: Stub("process 101", {"returncode": None}), 102: Stub("process 102", {"returncode": None})}
        started = []
        gate = it.call(("ext", "asyncio.Event"), [], [])

        def start(it, a, k):
            d = dict(zip(("actor_pool_config", "process_index", "start_python"), a[-2:]))
            d.update({n: v for n, v in k})

            def run():
                i = d.get("process_index")
                started.append(i)
                if i == order:
                    it.call(it.attr(gate, "set"), [], [])
                else:
                    it.await_(it.call(it.attr(gate, "wait"), [], []))
                return Seq("tuple", [procs[i], Seq("list", [SUB1 if i == 101 else SUB2])])
            return Coro(run, "start")
        it.stubs["MainActorPool.start_sub_pool"] = start

        def servers(it, a, k):
            addrs = it.parts_of(a[-3] if len(a) >= 3 else dict(k)["addresses"])
            return Coro(lambda: Seq("list", [Stub("server", {"address": MAIN if x == "main:?" else x}) for x in addrs]), "servers")
        it.stubs["AbstractActorPool._create_servers"] = servers
        it.stubs["ActorPoolBase._create_servers"] = servers
        it.stubs["TypeDispatcher.reload_all_lazy_handlers"] = lambda it, a, k: None
        it.stubs["backends.pool._disable_log_temporally"] = lambda it, a, k: Stub("nullcontext", methods={"__enter__": lambda it, a, k: None, "__exit__": lambda it, a, k: None})
        it.stubs["backends.core.ActorCaller"] = lambda it, a, k: Stub("caller", methods={"stop": lambda it, a, k: Coro(lambda: None, "stop")})
        sent = []

        def call(it, a, k):
            def run():
                sent.append((a[1], a[2]))
                return message(it, "ResultMessage", message_id=a[2].attrs.get("message_id"), result=True)
            return Coro(run, "call")
        it.stubs["AbstractActorPool.call"] = call
        st, p = attempt(it, lambda: it.await_(it.call(it.attr(cls, "create"), [Dct([("actor_pool_config", cfg), ("process_index", 100), ("auto_recover", "actor")])], [])))
        it.claim(st == "ok", f"creating a pool fails ({cname(p) or p})")
        if st != "ok":
            return
        it.claim(sorted(started) == [101, 102], "not exactly the configured sub pools are started")
        it.claim(it.attr(p, "external_address") == MAIN, "the main pool does not know the address it listens on")
        w = Group.__new__(Group)
        w.it, w.p, w.cfg, w.r, w.g, w.sent = it, p, cfg, it.attr(p, "_router"), g, sent
        w.consistent("a pool was created", (SUB1, SUB2))
        w.synced("a pool was created", (SUB1, SUB2))
        for i, a in ((101, SUB1), (102, SUB2)):
            it.claim(dget(it.attr(p, "sub_processes"), a) is procs[i], "a process is recorded under the address of another sub pool")
            it.claim(it.call(it.attr(cfg, "get_external_address"), [i], []) == a, "a process index is configured with the address of another sub pool")
    Sc(ctx, "create", f).run("creating a pool of three processes", go)


def _synced(ctx, cls):
    f = ctx.method(cls, "handle_control_command")

    def go(it):
        w = Group(it, cls, sub=True)
        new = config(it, addrs=(MAIN, SUB1, NEW))
        ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "sync_config")
        m = message(it, "ControlMessage", message_id=T("mid"), address="main:moved", control_message_type=ct, content=new)
        st, v = ask(it, w.p, "handle_control_command", m)
        it.claim(st == "ok" and is_msg(v, "ResultMessage"), "a sub pool rejects a new configuration")
        it.claim(it.attr(w.p, "_config") is new, "a sub pool does not adopt the new configuration")
        it.claim(it.attr(w.p, "_main_address") == "main:moved", "a sub pool does not learn the main pool's address from a new configuration")
        for r, n in ((w.r, "pool's"), (w.g, "global")):
            it.claim(w.route(r, NEW) == "int:2", f"the {n} router of a sub pool does not route to a pool that was added")
            it.claim(w.route(r, SUB2) is None, f"the {n} router of a sub pool still routes to a pool that was removed")
            it.claim(w.route(r, MAIN) == "int:0", f"the {n} router of a sub pool does not route to the main pool")
            it.claim(w.route(r, SUB1) == "dummy:0", f"the {n} router of a sub pool has lost the sub pool's own local address")
    Sc(ctx, "sync", f).run("a new configuration reaches a sub pool", go)

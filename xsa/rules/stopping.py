"""C14: stopping releases everything, by abstract interpretation of stop with every outcome of every release step."""
from .lifecycle import *
from .processes import Child


def stopping(ctx: Ctx):
    _pool_stop(ctx)
    _main_stop(ctx)
    _recovering(ctx)
    _sub_stop(ctx)
    _caller(ctx)
    _servers(ctx)
    _create(ctx)
    _channel_close(ctx)
    _watched(ctx)


class Log(list):
    def step(self, it, name, outs=("ok", "slow", "ConnectionError", "OSError")):
        def f(it, a, k):
            def run():
                self.append(name)
                o = outcome(it, name, *outs)
                it.pause()
                if o == "slow":
                    it.await_(it.call(("ext", "asyncio.sleep"), [1], []))
                elif o != "ok":
                    it.raise_(o)
                self.append(name + " done")
            return Coro(run, name)
        return f


def joiner(it, p, log):
    def body():
        it.await_(it.call(it.attr(p, "join"), [], []))
        log.append("joined")
    return it.spawn(Coro(body, "join"), "join")


def nap(it, t):
    it.await_(it.call(("ext", "asyncio.sleep"), [t], []))


def setup_pool(it, cls, log, *args, server_outs=("ok", "OSError"), caller_outs=("ok", "OSError"), **kw):
    sv = [Stub(f"server{i}", {}, {"stop": log.step(it, f"server{i}", server_outs if i == 0 else ("ok",))}) for i in range(2)]
    p = pool(it, cls, *args, servers=Seq("list", sv), **kw)
    it.setattr(p, "_caller", Stub("caller", {}, {"stop": log.step(it, "caller", caller_outs)}))
    removed = []
    it.stubs["Router.get_instance"] = lambda it, a, k: Stub("global router", {}, {"remove_router": lambda it, a, k: removed.append(a[0])}) if not nr[0] else None
    nr = [False]
    p.removed, p.nr = removed, nr
    return p


def _pool_stop(ctx):
    main = main_pool(ctx)
    f = ctx.prog.method(main, "stop")
    run = Sc(ctx, "stop-releases-everything", f).run

    def stop(it):
        log = Log()
        p = setup_pool(it, main, log, server_outs=("ok", "slow", "OSError", "CancelledError"), caller_outs=("ok", "slow", "OSError"))
        p.nr[0] = outcome(it, "global router", "set", "not set") == "not set"
        det = it.spawn(Coro(lambda: nap(it, 500), "detector"), "detector")
        it.setattr(p, "_asyncio_task_timeout_detector_task", det)
        j = joiner(it, p, log)
        nap(it, 0.1)
        it.claim("joined" not in log, "join returns before the pool is stopped")
        own = it.attr(p, "_router")
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(p, "stop"), [], [])))
        at_return = list(log)
        nap(it, 5)
        for n in ("server0", "server1", "caller"):
            it.claim(n in log, f"stopping a pool does not stop its {n.rstrip('01')}{'s' if 'server' in n else ''}")
            it.claim(st != "ok" or n + " done" in at_return, f"stop returns before its {n.rstrip('01')} is stopped")
        it.claim(it.truth(it.attr(p, "stopped")), "a pool is not stopped after stop")
        it.claim("joined" in log, "join does not return after stop")
        it.claim(p.nr[0] or own in p.removed, "the routes of a stopped pool are not removed")
        it.claim(st == "raise" or det.done, "the timeout detector of a stopped pool keeps running")
        bad = any(o.endswith("Error") for o in it.outcomes)
        it.claim((st == "ok") == (not bad), "a failure during stop is hidden" if bad else "stop of a healthy pool fails")
        if st == "ok":
            st, v = attempt(it, lambda: it.await_(it.call(it.attr(p, "stop"), [], [])))
            it.claim(log.count("server1") == 1, "a second stop stops the servers again")
    run("servers, clients, routes, joiners", stop)

    def joins(it):
        p = setup_pool(it, main, Log(), server_outs=("ok",), caller_outs=("ok",))
        limit = outcome(it, "time limit", None, 2, "by keyword")
        a, k = ([], [("timeout", 2)]) if limit == "by keyword" else ([limit], []) if limit else ([], [])
        j = it.spawn(it.call(it.attr(p, "join"), a, k), "join")
        then = outcome(it, "meanwhile", "nothing", "join is cancelled", "the pool is stopped")
        nap(it, 1)
        it.claim(not j.done, "join returns before the pool is stopped")
        if then == "join is cancelled":
            it.task_cancel(j)
            nap(it, 0.5)
            it.claim(j.state == "cancelled", "join cannot be cancelled")
        elif then == "the pool is stopped":
            it.await_(it.call(it.attr(p, "stop"), [], []))
            nap(it, 0.5)
            it.claim(j.state == "done", "join does not return after stop")
        else:
            nap(it, 20)
            it.claim(j.state == ("done" if limit else "pending") or not limit and not j.done, "join with a time limit does not return at it, or one without does")
        it.claim(then == "the pool is stopped" or not it.truth(it.attr(p, "stopped")), "waiting for a pool stops it")
    run("joining with a time limit", joins)

    def starts(it):
        log = Log()
        p = setup_pool(it, main, log, server_outs=("ok",), caller_outs=("ok",))
        up = []
        for n, sv in enumerate(it.iterate(it.attr(p, "_servers"))):
            o = outcome(it, f"starting server {n}", "ok", "OSError")

            def start(it, a, k, n=n, o=o):
                def run():
                    it.pause()
                    if o != "ok":
                        it.raise_(o)
                    up.append(n)
                return Coro(run, "start")
            sv.methods["start"] = start
        stopped = outcome(it, "the pool was stopped before", False, True)
        if stopped:
            it.await_(it.call(it.attr(p, "stop"), [], []))
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(p, "start"), [], [])))
        if stopped:
            it.claim(st == "raise" and not up, "a pool that was stopped can be started again")
        elif any(o.endswith("OSError") for o in it.outcomes):
            it.claim(st == "raise", "a server that cannot be started is not reported")
        else:
            it.claim(st == "ok" and sorted(up) == [0, 1], "starting a pool does not start all its servers")
    Sc(ctx, "start", ctx.prog.method(main, "start")).run("starting a pool", starts)


def _subs(it, p, kids):
    d = Dct()
    for a, c in kids:
        it.setitem(d, a, c.stub)
    it.setattr(p, "sub_processes", d)


def _main_stop(ctx):
    main = main_pool(ctx)
    f = ctx.prog.method(main, "stop")
    run = Sc(ctx, "main-pool-kills-its-sub-pools", f).run

    def stop(it):
        log = Log()
        p = setup_pool(it, main, log, server_outs=("ok",), caller_outs=("ok",))
        kids = [(SUB1, Child(it, "p1")), (SUB2, Child(it, "p2"))]
        _subs(it, p, kids)
        dead = outcome(it, "first sub pool", "alive", "dead")
        if dead == "dead":
            kids[0][1].exit(1)
        sent, killed = [], []
        ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "stop")

        def call(it, a, k):
            def body():
                addr, m = a[-2:] if not isinstance(a[0], str) else a[:2]
                it.claim(is_msg(m, "ControlMessage") and m.attrs["control_message_type"] == ct, "a sub pool is not told to stop")
                sent.append(addr)
                o = outcome(it, f"stop message to {addr}", *(("ok", "error reply", "ConnectionError", "ServerClosed", "OSError", "TimeoutError", "hangs") if addr == SUB1 else ("ok", "hangs", "OSError")))
                it.pause()
                if o == "hangs":
                    nap(it, 400)
                if o == "error reply":
                    return message(it, "ErrorMessage", message_id=1, address=addr, pid=1, error_type=None, error=None, traceback=None)
                if o != "ok":
                    if o in ("ServerClosed",):
                        raise Raised(it.call(it.prog.module("errors").defs["ServerClosed"], ["x"], []), "closed")
                    it.raise_(o)
                return message(it, "ResultMessage", message_id=1, result=True)
            return Coro(body, "call")
        it.stubs["AbstractActorPool.call"] = call

        def kill(it, a, k):
            d = dict(k)
            pr = a[1]
            force = d.get("force", a[2] if len(a) > 2 else False)

            def body():
                killed.append((pr, force))
                o = outcome(it, "kill", "ok", "raises") if pr is kids[0][1].stub else "ok"
                it.pause()
                if o == "raises":
                    it.raise_("PermissionError")
                for _, c in kids:
                    if c.stub is pr:
                        c.exit(-9)
            return Coro(body, "kill")
        it.stubs["MainActorPool.kill_sub_pool"] = kill
        mon = outcome(it, "monitor", "none", "running", "failed")
        m = None
        if mon != "none":
            def body():
                if mon == "failed":
                    it.raise_("ValueError")
                nap(it, 500)
            m = it.spawn(Coro(body, "monitor"), "monitor")
            it.setattr(p, "_monitor_task", m)
        j = joiner(it, p, log)
        nap(it, 0.1)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(p, "stop"), [], [])))
        took = it.now
        nap(it, 10)
        kr = any("kill: raises" == o for o in it.outcomes)
        it.claim(kr or st == "ok", "stopping a pool fails because a sub pool does not answer")
        for a, c in kids:
            it.claim(c.dead or any(pr is c.stub for pr, _ in killed), "a sub pool process stays running after stop")
        it.claim(dead != "dead" or all(pr is not kids[0][1].stub for pr, _ in killed) and SUB1 not in sent, "a dead sub pool is stopped again")
        for a, c in kids:
            it.claim(a in sent or c is kids[0][1] and dead == "dead", "a sub pool is killed without being told to stop")
        for o in it.outcomes:
            if o.startswith("stop message") and o.endswith(("ConnectionError", "ServerClosed", "OSError", "hangs")):
                pr = kids[0][1].stub if SUB1 in o else kids[1][1].stub
                it.claim(any(q is pr and f is True for q, f in killed), "a sub pool that does not stop is not killed forcibly")
        it.claim("server0" in log and "server1" in log and "caller" in log, "a main pool is not stopped itself when a sub pool cannot be stopped")
        it.claim(it.truth(it.attr(p, "stopped")) and "joined" in log, "a main pool is not stopped after stop")
        it.claim(m is None or m.done, "the monitor of a stopped pool keeps running")
        it.claim(not it.truth(it.attr(p, "_auto_recover")), "a stopped pool recovers its sub pools")
        it.claim(took < 60, "stop waits for a sub pool that does not answer")
        it.claim(it.attr(p, "_router") in p.removed, "the routes of a stopped pool are not removed")
    run("every outcome of the stop of the sub pools", stop, max_paths=4000)

    def forced(it):
        log = Log()
        p = setup_pool(it, main, log, server_outs=("ok",), caller_outs=("ok",))
        c = Child(it, "p1")
        _subs(it, p, [(SUB1, c)])
        how = outcome(it, "stop_sub_pool", "forced", "with timeout 5", "with timeout 0.5", "with timeout 0")
        killed = []

        def call(it, a, k):
            def body():
                log.append("told")
                nap(it, 1)
                log.append("answered")
                return message(it, "ResultMessage", message_id=1, result=True)
            return Coro(body, "call")
        it.stubs["AbstractActorPool.call"] = call

        def kill(it, a, k):
            force = dict(k).get("force", a[2] if len(a) > 2 else False)
            return Coro(lambda: killed.append(force), "kill")
        it.stubs["MainActorPool.kill_sub_pool"] = kill
        args = {"forced": [("force", True)], "with timeout 5": [("timeout", 5)], "with timeout 0.5": [("timeout", 0.5)], "with timeout 0": [("timeout", 0)]}[how]
        if outcome(it, "asked for", "here", "by a message") == "here":
            it.await_(it.call(it.attr(p, "stop_sub_pool"), [SUB1, c.stub], args))
        else:
            d = dict(args)
            ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "stop")
            r = it.await_(it.call(it.attr(p, "handle_control_command"), [message(it, "ControlMessage", message_id=b"c", address=SUB1, control_message_type=ct, content=Seq("tuple", [d.get("timeout", 3.0), d.get("force", False)]))], []))
            it.claim(is_msg(r, "ResultMessage"), "a sub pool cannot be stopped by a message")
        it.claim(killed == [how != "with timeout 5"], "a sub pool that stops in time is killed forcibly" if how == "with timeout 5" else "a sub pool is not killed forcibly")
        it.claim(("told" in log) == (how != "forced"), "a sub pool is asked to stop although it has to be killed" if how == "forced" else "a sub pool is not asked to stop")
    run("stop of one sub pool", forced)


def _recovering(ctx):
    """stop while a sub pool is being recovered"""
    main = main_pool(ctx)
    f = ctx.prog.method(main, "stop")
    run = Sc(ctx, "stop-during-recovery", f).run

    def stop(it):
        log = Log()
        p = setup_pool(it, main, log, server_outs=("ok",), caller_outs=("ok",))
        kids = [(SUB1, Child(it, "p1")), (SUB2, Child(it, "p2"))]
        _subs(it, p, kids)
        it.setattr(p, "_auto_recover", "actor")
        it.setattr(p, "_on_process_down", None)
        it.setattr(p, "_on_process_recover", None)
        rec = it.attr(p, "_allocated_actors")
        act = actor_class(it)
        cm = message(it, "CreateActorMessage", message_id=T("m", 1), actor_cls=act, actor_id="u", args=Seq("tuple", []), kwargs=Dct(), allocate_strategy=it.call(it.prog.module("backends.allocate_strategy").defs["AddressSpecified"], [SUB1], []))
        if dget(rec, SUB1) is None:
            it.setitem(rec, SUB1, Dct())
        it.setitem(dget(rec, SUB1), ref(it, SUB1, "u"), Seq("tuple", [cm.attrs["allocate_strategy"], cm]))
        made = []

        def starter(it, a, k):
            def body():
                c = Child(it, "new")
                made.append(c)
                try:
                    nap(it, 1)
                except Raised:
                    # decided for C15: a start that is cancelled leaves no process
                    c.exit(-9)
                    raise
                return Seq("tuple", [c.stub, SUB1])
            return Coro(body, "start")
        it.stubs["MainActorPool.start_sub_pool"] = starter
        it.stubs["MainActorPool._create_sub_pool_from_parent"] = starter

        def call(it, a, k):
            def body():
                m = [x for x in a if isinstance(x, Obj)][-1]
                if is_msg(m, "CreateActorMessage"):
                    nap(it, 1)
                it.pause()
                return message(it, "ResultMessage", message_id=1, result=True)
            return Coro(body, "call")
        it.stubs["AbstractActorPool.call"] = call

        def kill(it, a, k):
            def body():
                it.pause()
                for c in [c for _, c in kids] + made:
                    if c.stub is a[1]:
                        c.exit(-9)
            return Coro(body, "kill")
        it.stubs["MainActorPool.kill_sub_pool"] = kill
        it.await_(it.call(it.attr(p, "start_monitor"), [], []))
        nap(it, 0.01)
        kids[0][1].exit(1)
        when = outcome(it, "stop comes", "before the death is noticed", "while the sub pool is started", "while actors are created again", "after the recovery")
        nap(it, {"before": 0.01, "while the s": 1.0, "while a": 2.0, "after": 4.0}[next(x for x in ("before", "while the s", "while a", "after") if when.startswith(x))])
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(p, "stop"), [], [])))
        nap(it, 20)
        it.claim(st == "ok", "stop fails while a sub pool is recovered")
        it.claim(all(c.dead for _, c in kids) and all(c.dead for c in made), "a sub pool that was being recovered stays running after stop")
        it.claim(when != "before the death is noticed" or not made, "a stopped pool starts a sub pool")
        it.claim(len(made) <= 1, "a stopped pool starts a sub pool")
    run("a sub pool is being recovered", stop)


def _sub_stop(ctx):
    sub = sub_pool(ctx)
    f = ctx.prog.method(sub, "stop")
    run = Sc(ctx, "stop-releases-everything", f).run

    def stop(it):
        log = Log()
        watch = []

        def status(it, a, k):
            watch.append(it.now)
            return "running"
        it.stubs["psutil.Process"] = lambda it, a, k: Stub("ps", {}, {"status": status, "is_running": lambda it, a, k: (watch.append(it.now), True)[1]})
        pid = outcome(it, "main pool", 99, None)
        p = setup_pool(it, sub, log, SUB1, index=101, main_address=MAIN, main_pool_pid=pid)
        j = joiner(it, p, log)
        nap(it, 1.03)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(p, "stop"), [], [])))
        end = it.now
        nap(it, 5)
        bad = any(o.endswith("Error") for o in it.outcomes)
        it.claim(bad or st == "ok", "stop of a healthy sub pool fails")
        it.claim("server0" in log and "server1" in log and "caller" in log and "joined" in log and it.truth(it.attr(p, "stopped")), "a sub pool is not stopped after stop")
        it.claim(pid is None or watch and max(watch) <= end + 1, "the watch of a stopped sub pool keeps running")
        it.claim(log.count("server1") == 1, "a sub pool is stopped twice")
    run("sub pool", stop)

    def message_(it):
        log = Log()
        p = setup_pool(it, sub, log, SUB1, index=101, main_address=MAIN, main_pool_pid=None)
        ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "stop")
        st, r = ask(it, p, "handle_control_command", message(it, "ControlMessage", message_id=T("m", 1), address=SUB1, control_message_type=ct, content=None))
        nap(it, 5)
        it.claim(st == "ok" and "server1" in log and it.truth(it.attr(p, "stopped")), "a sub pool asked to stop does not stop")
        it.claim(st == "ok" and is_msg(r, "ErrorMessage" if any(o.endswith("Error") for o in it.outcomes) else "ResultMessage"), "the request to stop is not answered")
    run("a sub pool asked to stop", message_)


def _watched(ctx):
    """stop called by the pool's own watch on its main pool"""
    sub = sub_pool(ctx)
    run = Sc(ctx, "stop-releases-everything", ctx.prog.method(sub, "stop")).run

    def watched(it):
        log = Log()
        gone = []

        def status(it, a, k):
            if gone:
                it.raise_("NoSuchProcess")
            return "running"
        it.stubs["psutil.Process"] = lambda it, a, k: Stub("ps", {}, {"status": status, "is_running": lambda it, a, k: not gone})
        p = setup_pool(it, sub, log, SUB1, index=101, main_address=MAIN, main_pool_pid=99)
        j = joiner(it, p, log)
        nap(it, 0.33)
        it.claim("server0" not in log, "a sub pool stops although its main pool lives")
        gone.append(1)
        nap(it, 5)
        it.claim("server0" in log and "server1" in log and "caller" in log and "joined" in log and it.truth(it.attr(p, "stopped")), "a sub pool whose main pool is gone does not stop")
    run("main pool gone", watched)


def _caller(ctx):
    core = ctx.prog.module("backends.core")
    cls = core.defs["ActorCallerThreadLocal"]
    run = Sc(ctx, "caller-releases-clients", ctx.prog.method(cls, "stop")).run

    def stop(it):
        it.stubs["asyncio.get_running_loop"] = lambda it, a, k: it.loop()
        c = it.call(cls, [], [])
        log, tasks = Log(), []
        d = Dct()
        for i in range(3):
            cl = Stub(f"client{i}", {}, {"close": log.step(it, f"client{i}", ("ok", "slow", "ConnectionError", "OSError", "RuntimeError") if i == 0 else ("ok", "OSError") if i == 1 else ("ok",))})
            t = it.spawn(Coro(lambda: nap(it, 500), "listen"), "listen")
            tasks.append(t)
            it.setitem(d, cl, t)
        it.setattr(c, "_clients", d)
        nap(it, 0.1)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(c, "stop"), [], [])))
        nap(it, 5)
        it.claim(all(f"client{i}" in log for i in range(3)), "a client of a stopped caller is not closed")
        it.claim(all(t.done for t in tasks), "a listener of a stopped caller keeps running")
        it.claim(st == "ok" or any(o.endswith("Error") for o in it.outcomes), "stop of a healthy caller fails")
        it.claim(st == "ok" or not all(o.endswith(("ok", "slow", "ConnectionError")) for o in it.outcomes), "a connection that is gone already makes stop fail")
    run("clients and listeners", stop)


def _servers(ctx):
    so, du = ctx.prog.module("backends.communication.socket"), ctx.prog.module("backends.communication.dummy")
    for mod, name in ((so, "SocketServer"), (so, "UnixSocketServer"), (du, "DummyServer")):
        cls = mod.defs.get(name)
        run = Sc(ctx, "server-closes-channels", ctx.prog.method(cls, "stop")).run

        def stop(it, mod=mod, name=name, cls=cls):
            log = Log()
            py312 = outcome(it, "python", "3.11", "3.12") if mod is so else "3.12"
            it.stubs["utils.is_py_312_or_above"] = lambda it, a, k: py312 == "3.12"
            it.stubs["socket.is_py_312_or_above"] = lambda it, a, k: py312 == "3.12"
            serving = [True]
            aio = Stub("aio", {}, {"close": lambda it, a, k: (log.append("closed"), serving.clear())[0], "wait_closed": lambda it, a, k: Coro(lambda: log.append("waited"), "wait_closed"), "is_serving": lambda it, a, k: bool(serving)})
            if name == "SocketServer":
                s = it.call(cls, ["host", 1, aio], [])
            elif name == "UnixSocketServer":
                s = it.call(cls, [7, aio, "/tmp/x.sock"], [])
            else:
                s = it.call(cls, ["dummy://0"], [])
            gone = []
            it.stubs["os.remove"] = lambda it, a, k: (gone.append(a[0]), it.raise_("FileNotFoundError") if outcome(it, "socket file", "there", "gone") == "gone" else None)[1]
            it.stubs["os.unlink"] = it.stubs["os.remove"]
            chans = []
            for i in range(3 if outcome(it, "connections", "some", "none") == "some" else 0):
                o = outcome(it, "channel", "open", "closed") if i == 1 else "open"
                ch = Stub(f"chan{i}", {"closed": o == "closed"}, {})

                def close(it, a, k, ch=ch, i=i):
                    def run_():
                        it.pause()
                        if i == 0 and mod is so and outcome(it, "close of the first channel", "ok", "OSError") != "ok":
                            it.raise_("OSError")
                        ch.attrs["closed"] = True
                    return Coro(run_, "close")
                ch.methods["close"] = close
                chans.append(ch)
            old = it.attr(s, "_channels")
            it.setattr(s, "_channels", Seq(getattr(old, "kind", "set"), chans))
            tasks = []
            if name == "DummyServer":
                t = it.spawn(Coro(lambda: nap(it, 500), "handler"), "handler")
                tasks.append(t)
                old = it.attr(s, "_tasks")
                it.setattr(s, "_tasks", Seq(getattr(old, "kind", "set"), [t]))
            st, v = attempt(it, lambda: it.await_(it.call(it.attr(s, "stop"), [], [])))
            nap(it, 2)
            fails = any("channel: OSError" in o for o in it.outcomes)
            it.claim(st == "ok" or fails, "stop of a healthy server fails")
            it.claim(all(c.attrs["closed"] for c in chans[1:]) and (fails or not chans or chans[0].attrs["closed"]), "a channel stays open after its server was stopped")
            it.claim(it.truth(it.attr(s, "stopped")), "a server still serves after it was stopped")
            it.claim(all(t.done for t in tasks), "a handler keeps running after its server was stopped")
            it.claim(name != "UnixSocketServer" or fails or gone == ["/tmp/x.sock"], "the socket file of a stopped server is left behind")
        run(f"stop of {name}", stop)

        def join(it, mod=mod, name=name, cls=cls):
            serving, waits = [True], []

            def serve():
                waits.append(1)
                try:
                    it.block(lambda: not serving)
                finally:
                    waits.pop()
            py = outcome(it, "python", "3.11", "3.12") if mod is so else "3.12"
            for n in ("is_py_312", "is_py_312_or_above"):
                it.stubs["utils." + n] = it.stubs["socket." + n] = lambda it, a, k: py == "3.12"
            aio = Stub("aio", {}, {"serve_forever": lambda it, a, k: Coro(serve, "serve"), "close": lambda it, a, k: serving.clear(),
                                   "wait_closed": lambda it, a, k: Coro(lambda: None, "wait_closed"), "is_serving": lambda it, a, k: bool(serving)})
            s = it.call(cls, {"SocketServer": ["host", 1, aio], "UnixSocketServer": [7, aio, "/tmp/x.sock"]}.get(name, ["dummy://0"]), [])
            limit = outcome(it, "time limit", None, 2)
            j = it.spawn(it.call(it.attr(s, "join"), [] if limit is None else [limit], []), "join")
            nap(it, 1)
            it.claim(not j.done, "waiting for a server ends before the server does")
            nap(it, 20)
            it.claim(j.done == (limit is not None), "waiting for a server does not end at the time limit" if limit else "waiting for a server ends before the server does")
            it.claim(not limit or j.state == "done", "waiting for a server up to a time limit fails")
            it.claim(not limit or not waits, "a wait for a server goes on after its time limit")
            it.claim(not it.truth(it.attr(s, "stopped")), "waiting for a server stops it")
        run(f"waiting for {name}", join)


def _channel_close(ctx):
    cls = ctx.prog.module("backends.communication.socket").defs["SocketChannel"]
    f = ctx.method(cls, "close")

    def go(it):
        end = outcome(it, "the end of the connection", "ok", "ConnectionResetError", "RuntimeError")
        closed = []

        def waited():
            it.block(lambda: bool(closed))
            if end != "ok":
                it.raise_(end)
        w = Stub("writer", {}, {"close": lambda it, a, k: closed.append(1), "is_closing": lambda it, a, k: bool(closed), "wait_closed": lambda it, a, k: Coro(waited, "wait_closed")})
        ch = it.call(cls, [Stub("reader"), w], [])
        t = it.spawn(it.call(it.attr(ch, "close"), [], []), "close")
        it.drain()
        it.claim(bool(closed) and t.done, "a channel is not closed, or closing it never ends")
        it.claim(not t.done or t.state == "done", "closing a connection that is broken fails")
    Sc(ctx, "server-closes-channels", f).run("closing a channel", go)


def _create(ctx):
    main = main_pool(ctx)
    f = ctx.prog.method(main, "_create_servers")
    run = Sc(ctx, "failed-creation-stops-servers", f).run

    def create(it):
        made, stopped = {}, []
        n = ctx.more(3, 4)
        outs = [outcome(it, f"server {i}", "ok", "slow", "OSError") for i in range(n)]
        srv = it.prog.module("backends.communication.base").defs["Server"]
        when = outcome(it, "creation", "goes on", "is cancelled") if "OSError" not in outs else "goes on"

        def type_of(it, a, k):
            i = int(a[0][-1])

            def new(it, a, k):
                def body():
                    if outs[i] == "slow":
                        nap(it, 1)
                    if outs[i] == "OSError":
                        it.raise_("OSError")
                    it.claim(dget(a[-1], "address") == f"tcp://h:{i}" and dget(a[-1], "handle_channel") == "H", "a server is not created with its address and the handler of the pool")
                    made[i] = Obj(srv, {"address": f"tcp://h:{i}"})
                    return made[i]
                return Coro(body, "create")
            return Stub("type", {}, {"create": new, "parse_config": lambda it, a, k: Dct()})
        it.stubs["get_server_type"] = type_of
        it.stubs["pool.get_server_type"] = type_of
        it.stubs["communication.get_server_type"] = type_of
        it.stubs["communication.core.get_server_type"] = type_of

        def stop(it, a, k):
            return Coro(lambda: stopped.append(a[0]), "stop")
        it.stubs["Server.stop"] = stop
        t = it.spawn(it.call(it.attr(main, "_create_servers"), [Seq("list", [f"tcp://h:{i}" for i in range(n)]), "H", Dct()], []), "create")
        if when != "goes on":
            nap(it, 0.2)
            it.call(it.attr(t, "cancel"), [], [])
        st, v = attempt(it, lambda: it.await_(t))
        nap(it, 5)
        if st == "ok":
            it.claim("OSError" not in outs and list(v.parts) == [made[i] for i in range(n)] and not stopped, "the servers are not returned in the order of their addresses")
        else:
            it.claim("OSError" in outs or when != "goes on", "creation of healthy servers fails")
            it.claim(all(any(x is m for x in stopped) for m in made.values()), "a server keeps listening although the pool was not created")
    run("one server of a pool cannot be created", create)

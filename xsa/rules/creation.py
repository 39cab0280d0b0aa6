"""C31: a pool is created as it was asked for, by abstract interpretation of the creation of a pool from the user's call to
the processes and servers it consists of."""
from .topology import *
from .processes import Shm

UNIX = "asyncio.start_unix_server"


def creation(ctx: Ctx):
    main = main_pool(ctx)
    _asking(ctx, main)
    _addresses(ctx, main)
    _through_api(ctx)
    _process(ctx, main)
    _child(ctx, main)
    _servers(ctx)
    _ports(ctx)


def strs(it, v):
    return list(it.parts_of(v))


def lst(*a):
    return Seq("list", list(a))


def _asking(ctx, main):
    f = ctx.func("backends.pool", "create_actor_pool")

    def go(it):
        n = outcome(it, "processes", 0, 1, 2, None)
        it.stubs["multiprocessing.cpu_count"] = lambda it, a, k: 2
        size = 2 if n is None else n
        made, log = [], []
        starts = outcome(it, "starting", "works", "OSError", "CancelledError")

        def start(it, a, k):
            def run():
                log.append("start")
                if starts != "works":
                    it.raise_(starts)
            return Coro(run, "start")
        pl = Stub("pool", {}, {"start": start, "stop": lambda it, a, k: Coro(lambda: log.append("stop"), "stop")})

        def create(it, a, k):
            def run():
                made.append(a[-1])
                log.append("create")
                return pl
            return Coro(run, "create")
        for c in ("MainActorPool", "MainActorPoolBase"):
            it.stubs[f"{c}.create"] = create
        it.stubs["os.getpid"] = lambda it, a, k: 7
        unix = outcome(it, "unix sockets", True, False)
        it.exts[UNIX] = Native(lambda it, a, k: None, "start_unix_server") if unix else None
        given = outcome(it, "asked for", "nothing", "everything", "labels", "envs", "schemes", "internal addresses", "ports", "modules", "suspend_sigint", "use_uvloop", "logging_conf", "proxy_conf", "extra_conf", "on_process_down", "on_process_recover", "metrics", "other", "wrong labels", "wrong envs", "wrong schemes", "wrong internal addresses", "wrong ports", "wrong recovery")
        kw = {}
        full = given == "everything"
        mods, logc = lst("mod.a", "mod.b"), Dct([("level", "INFO")])
        if full or given == "labels":
            kw["labels"] = lst(*[f"label{i}" for i in range(size + 1)])
        if full or given == "envs":
            kw["envs"] = lst(*[Dct([("NO", str(i))]) for i in range(size)])
        if full or given == "schemes":
            kw["external_address_schemes"] = lst(*[None if i % 2 else "ucx" for i in range(size + 1)])
        if full or given == "internal addresses":
            kw["enable_internal_addresses"] = lst(*[i % 2 == 0 for i in range(size + 1)])
        rec = outcome(it, "recovery", "default", True, "actor", "process", False) if full else "default"
        uv = outcome(it, "event loop", True, False) if full else "auto"
        down, up = Native(lambda it, a, k: None, "down"), Native(lambda it, a, k: None, "up")
        if full and rec != "default":
            kw["auto_recover"] = rec
        if given == "use_uvloop":
            uv = True
        every = dict(ports=lst(*[5000 + i for i in range(size)]), modules=mods, suspend_sigint=True, use_uvloop=uv, logging_conf=logc,
                      proxy_conf=Dct([("far:1", "near:1")]), extra_conf=Dct([("listen_elastic_ip", True)]), on_process_down=down, on_process_recover=up,
                      metrics=Dct([("backend", "console")]), other=T("other"))
        kw.update(every if full else {n: every[n] for n in every if n == given})
        if given == "wrong labels":
            kw["labels"] = lst(*[f"label{i}" for i in range(size + 2)])
        if given == "wrong envs":
            kw["envs"] = lst(*[Dct() for i in range(size + 1)])
        if given == "wrong schemes":
            kw["external_address_schemes"] = lst(*["ucx"] * (size + 2))
        if given == "wrong internal addresses":
            kw["enable_internal_addresses"] = lst(*[True] * (size + 2))
        if given == "wrong ports":
            kw["ports"] = lst(*[5000 + i for i in range(size + 2)])
        if given == "wrong recovery":
            kw["auto_recover"] = "always"
        if n is not None or outcome(it, "processes given as", "argument", "nothing") == "argument":
            kw["n_process"] = n
        st, r = attempt(it, lambda: it.await_(it.call(f, ["host:80"], [("pool_cls", main)] + list(kw.items()))))
        if given.startswith("wrong"):
            it.claim(st == "raise" and err_is(it, r, "ValueError") and not made, "a pool is created although what was asked for does not fit")
            return
        if starts != "works":
            it.claim(st == "raise" and err_is(it, r, starts), "the error of the start is lost")
            it.claim("stop" in log and log.index("stop") > log.index("start"), "a pool that cannot be started leaves its sub pools running")
            return
        it.claim(st == "ok", f"a pool cannot be created ({cname(r) or r})")
        if st != "ok" or not made:
            return
        it.claim(r is pl and log == ["create", "start"], "the pool is not created and started once")
        d = made[0]
        c = dget(d, "actor_pool_config")
        idx = strs(it, it.call(it.attr(c, "get_process_indexes"), [], []))
        it.claim(len(idx) == size + 1 and len(set(idx)) == len(idx), "not exactly the processes asked for are configured")
        if len(idx) != size + 1:
            return
        it.claim(dget(d, "process_index") == idx[0], "the main pool is not the first process")
        it.claim(dget(d, "auto_recover") == ("actor" if rec in ("default", True) else rec), "the recover mode is not the one asked for")
        it.claim(dget(d, "on_process_down") is kw.get("on_process_down") and dget(d, "on_process_recover") is kw.get("on_process_recover"), "the callbacks of the user are not handed on")
        for i, x in enumerate(idx):
            p = it.call(it.attr(c, "get_pool_config"), [x], [])
            what = f"process {i}"
            labels, envs = kw.get("labels"), kw.get("envs")
            it.claim(dget(p, "label") == (f"label{i}" if labels is not None else None), f"{what} gets another label")
            if i:
                e = dget(p, "env")
                it.claim((e is envs.parts[i - 1]) if envs is not None and envs.parts else not e, f"{what} gets another environment")
            pre = "ucx://" if "external_address_schemes" in kw and i % 2 == 0 else ""
            port = 80 if i == 0 else 5000 + i - 1 if "ports" in kw else 0
            ext = strs(it, dget(p, "external_address"))
            it.claim(ext == [f"{pre}host:{port}"], f"{what} gets another address")
            on = "enable_internal_addresses" not in kw or i % 2 == 0
            inner = dget(p, "internal_address")
            it.claim((inner == (f"unixsocket:///{x}" if unix else ext[0])) if on else inner is None, f"{what} gets another internal address")
            it.claim(dget(p, "modules") is kw.get("modules"), f"{what} does not load the modules")
            it.claim(dget(p, "suspend_sigint") is kw.get("suspend_sigint"), f"{what} ignores suspend_sigint")
            if "use_uvloop" in kw:
                it.claim(dget(p, "use_uvloop") is uv, f"{what} uses another event loop")
            else:
                it.claim(dget(p, "use_uvloop") in (True, False), "use_uvloop is not decided")
            it.claim(dget(p, "logging_conf") is kw.get("logging_conf"), f"{what} gets another logging configuration")
            if "other" in kw:
                k = dget(p, "kwargs")
                it.claim(isinstance(k, Dct) and dget(k, "other") == T("other"), f"{what} loses further arguments")
        get = lambda n: items_of(it.call(it.attr(c, n), [], []))  # noqa: E731
        it.claim(get("get_comm_config") == ([("listen_elastic_ip", True)] if "extra_conf" in kw else []), "the extra configuration is lost")
        it.claim(get("get_proxy_config") == ([("far:1", "near:1")] if "proxy_conf" in kw else []), "the proxies are lost")
        it.claim(get("get_metric_configs") == ([("backend", "console")] if "metrics" in kw else []), "the metric configuration is lost")
    Sc(ctx, "creation", f).run("asking for a pool", go, max_paths=4000)


def _addresses(ctx, main):
    f = ctx.method(main, "get_external_addresses")

    def go(it):
        n = outcome(it, "processes", 0, 1, 3)
        host = outcome(it, "host", "127.0.0.1", "::1", "name")
        with_port = outcome(it, "address", "with a port", "without") == "with a port" or host == "::1"
        addr = host + ":1234" if with_port else host
        cnt = outcome(it, "ports", None, "right", "more", "fewer")
        need = n if with_port else n + 1
        if cnt == "fewer" and need < 2:
            return
        ports = None if cnt is None else [6000 + i for i in range({"right": need, "more": need + 1, "fewer": need - 1}[cnt])]
        sch = outcome(it, "schemes", False, True)
        schemes = [("ucx", None, "")[i % 3] for i in range(n + 1)] if sch else None
        kw = [("n_process", n), ("ports", None if ports is None else lst(*ports)), ("schemes", None if schemes is None else lst(*schemes))]
        st, r = attempt(it, lambda: it.call(it.attr(main, "get_external_addresses"), [addr], kw))
        if cnt in ("more", "fewer"):
            it.claim(st == "raise" and err_is(it, r, "ValueError"), "a wrong number of ports is accepted")
            return
        it.claim(st == "ok", f"addresses cannot be made ({cname(r) or r})")
        if st != "ok":
            return
        ps = [1234] + (ports or [0] * n) if with_port else (ports or [0] * (n + 1))
        want = [(f"{s}://" if s else "") + f"{host}:{p}" for s, p in zip(schemes or [None] * (n + 1), ps)]
        it.claim(strs(it, r) == want, "the processes do not get the addresses asked for")
    Sc(ctx, "addresses", f).run("addresses of the processes", go, max_paths=2000)


def _through_api(ctx):
    f = ctx.func("api", "create_actor_pool")
    be = ctx.cls("backends.indigen.backend", "IndigenActorBackend")

    def api(it):
        got, asked = [], []
        back = Stub("backend", {}, {"create_actor_pool": lambda it, a, k: (got.append(flat_args(it, a, k)), Coro(lambda: "the pool", "create"))[1]})
        it.stubs["get_backend"] = lambda it, a, k: (asked.append(a[0]), back)[1]
        addr = outcome(it, "address", "127.0.0.1:0", "ucx://h:1", "other://h:1", None)
        n = outcome(it, "processes", None, 0, 3)
        st, r = attempt(it, lambda: it.await_(it.call(f, [addr], [("n_process", n), ("labels", T("labels")), ("extra", T("extra"))])))
        if addr is None:
            it.claim(st == "raise" and err_is(it, r, "ValueError") and not got, "a pool without an address is created")
            return
        it.claim(st == "ok" and r == "the pool", "the pool is not returned")
        it.claim(asked == [{"1": None, "u": "ucx", "o": "other"}[addr[0]]], "the backend of another scheme is used")
        a, k = got[0] if got else ([], [])
        it.claim(a == [addr] and dict(k) == {"n_process": n, "labels": T("labels"), "extra": T("extra")}, "what was asked for is not handed on unchanged")
    Sc(ctx, "asked", f).run("asking through the API", api)
    g = ctx.method(be, "create_actor_pool")

    def backend(it):
        got = []
        it.stubs["backends.pool.create_actor_pool"] = lambda it, a, k: (got.append(flat_args(it, a, k)), Coro(lambda: "the pool", "create"))[1]
        n = outcome(it, "processes", None, 0, 3)
        st, r = attempt(it, lambda: it.await_(it.call(it.attr(be, "create_actor_pool"), ["h:1"], [("n_process", n), ("labels", T("labels"))])))
        it.claim(st == "ok" and r == "the pool", f"a pool of {'the default size' if n is None else n} cannot be created")
        if not got:
            return
        a, k = got[0]
        it.claim(a == ["h:1"] and dict(k).get("n_process", None) == n and dict(k).get("labels") == T("labels") and dict(k).get("pool_cls") is main_pool(ctx), "what was asked for is not handed on unchanged")
    Sc(ctx, "asked", g).run("asking through the backend", backend)


def _process(ctx, main):
    f = ctx.method(main, "_create_sub_pool_from_parent")

    def go(it):
        sm = Shm(it)
        it.stubs["shared_memory.SharedMemory"] = lambda it, a, k: sm.stub
        cfg = config(it)
        own = outcome(it, "environment of the pool", None, "given")
        if own:
            it.setitem(it.call(it.attr(cfg, "get_pool_config"), [101], []), "env", Dct([("A", "own"), ("C", "3")]))
        it.exts["os.environ"] = Dct([("A", "parent"), ("B", "2")])
        it.stubs["os.getenv"] = lambda it, a, k: None
        it.exts["sys.executable"] = "/py"
        it.exts["sys.hexversion"] = 50
        started = []

        def start(it, a, k):
            started.append((list(it.parts_of(Seq("list", list(a)))), dict(k)))
            return Coro(lambda: it.raise_("OSError"), "exec")
        for n in ("create_subprocess_exec", "asyncio.create_subprocess_exec"):
            it.stubs[n] = start
        py = outcome(it, "interpreter", None, "/other/py")
        via = outcome(it, "through", "start_sub_pool", "_create_sub_pool_from_parent")
        args = [cfg, 101] + ([py] if py else [])
        st, r = attempt(it, lambda: it.await_(it.call(it.attr(main, via), args, [])))
        it.claim(st == "raise" and err_is(it, r, "OSError"), "a process that cannot be started is not an error")
        if not started:
            it.claim(False, "no process is started")
            return
        cmd, k = started[0]
        it.claim(cmd == [py or "/py", "-m", "xoscar.backends.indigen", "start_sub_pool", "-sn", sm.stub.attrs["name"]], "another command is run as sub pool")
        e = dict(items_of(k.get("env"))) if isinstance(k.get("env"), Dct) else None
        it.claim(e == {"A": "own" if own else "parent", "B": "2", **({"C": "3"} if own else {})}, "the process does not get the environment of its parent overlaid with its own")
        it.claim(dict(items_of(it.exts["os.environ"])) == {"A": "parent", "B": "2"}, "the environment of the main pool is changed")
    Sc(ctx, "process", f).run("the process of a sub pool", go)


def _child(ctx, main):
    f = ctx.method(main, "_start_sub_pool_in_child")
    mod = ctx.prog.module(IPOOL)

    def go(it):
        sm = Shm(it)
        it.stubs["shared_memory.SharedMemory"] = lambda it, a, k: sm.stub
        cfg = config(it)
        cf = it.call(it.attr(cfg, "get_pool_config"), [101], [])
        lg = outcome(it, "logging", None, "dict", "file", "parser", "level", "level and format")
        sig, uv = outcome(it, "suspend_sigint", True, False, None), outcome(it, "use_uvloop", True, False)
        conf = {None: None, "dict": Dct([("dict", "the dict")]), "parser": Stub("parser", {}, {}, "RawConfigParser"), "file": Dct([("file", "f.conf")]), "level": Dct([("level", "DEBUG")]), "level and format": Dct([("level", "DEBUG"), ("format", "%x")])}[lg]
        for n, v in (("suspend_sigint", sig), ("logging_conf", conf), ("use_uvloop", uv), ("env", None)):
            it.setitem(cf, n, v)
        arg = Dct()
        for n, v in (("actor_pool_config", cfg), ("process_index", 101), ("main_pool_pid", 99), ("python_version", 50)):
            it.setitem(arg, n, v)
        it.exts["sys.hexversion"] = 50
        log = []

        def rec(name, val=None):
            def g(it, a, k):
                log.append((name, list(a), dict(k)))
                return val
            return g
        uvl, ail = Stub("uvloop", {}), Stub("asyncio loop", {})
        for n in ("random.seed", "reset_id_random_seed", "ensure_coverage", "logging.config.dictConfig", "logging.config.fileConfig", "logging.basicConfig", "signal.signal", "asyncio.set_event_loop"):
            it.stubs[n] = rec(n)
        fresh = [0]

        def new(it, a, k):
            fresh[0] += 1
            return Stub("x", {"bytes": b"seed %d" % fresh[0], "hex": f"seed {fresh[0]}", "int": 1000 + fresh[0]})
        for n in ("uuid.uuid1", "uuid.uuid4"):
            it.stubs[n] = new
        it.stubs["uvloop.new_event_loop"] = lambda it, a, k: uvl
        it.stubs["asyncio.new_event_loop"] = lambda it, a, k: ail
        it.stubs["logging.getLogger"] = lambda it, a, k: Stub("logger", {}, {n: (rec("setLevel " + str(a[0] if a else "")) if n == "setLevel" else rec("log")) for n in ("setLevel", "warning", "error", "exception", "info")})
        it.stubs["threading.Thread"] = lambda it, a, k: Stub("thread", {}, {"start": lambda it, a, k: None})
        it.call(mod.defs["_shm_put_object"], [it.attr(mod.defs["_ShmSeq"], "INIT_PARAMS"), sm.stub, arg], [])
        done = []
        it.stubs["asyncio.run"] = lambda it, a, k: (log.append(("run", [], {})), done.append(1))[1]
        st, v = attempt(it, lambda: it.call(it.attr(main, "_start_sub_pool_in_child"), ["shm1"], []))
        it.claim(st == "ok" and done == [1], f"the pool does not run ({cname(v) or v})")
        names = [x[0] for x in log]
        get = lambda n: [x[1] for x in log if x[0] == n]  # noqa: E731
        seeds = [x[:1] for x in get("random.seed")]
        if seeds and lg is None:
            at = len(log)
            sm2 = Shm(it)
            it.stubs["shared_memory.SharedMemory"] = lambda it, a, k: sm2.stub
            it.setitem(arg, "python_version", 50)
            it.call(mod.defs["_shm_put_object"], [it.attr(mod.defs["_ShmSeq"], "INIT_PARAMS"), sm2.stub, arg], [])
            attempt(it, lambda: it.call(it.attr(main, "_start_sub_pool_in_child"), ["shm1"], []))
            again = [x[1][:1] for x in log[at:] if x[0] == "random.seed"]
            del log[at:]
            it.claim(not any(x == y and x and isinstance(x[0], (int, str, bytes)) for x, y in zip(seeds, again)), "the ids of a process follow from its configuration: two processes give the same ones")
        it.claim("reset_id_random_seed" in names and "run" in names and names.index("reset_id_random_seed") < names.index("run"), "ids of a sub pool are not made random before it runs")
        it.claim(bool(get("signal.signal")) == bool(sig), "interrupts are suspended exactly when that is asked for")
        it.claim([x[0] for x in get("asyncio.set_event_loop")] == [uvl if uv else ail], "another event loop is used")
        it.claim(get("logging.config.dictConfig") == ([["the dict"]] if lg == "dict" else []) and get("logging.config.fileConfig") == ([["f.conf"]] if lg == "file" else [[conf]] if lg == "parser" else []), "logging is configured differently")
        lv = [x for n, x, _ in log if n == "setLevel xoscar"]
        it.claim(lv == ([["DEBUG"]] if lg and lg.startswith("level") else []), "the level of the logs is another")
        it.claim([x[2] for x in log if x[0] == "logging.basicConfig"] == ([{"format": "%x"}] if lg == "level and format" else []), "the format of the logs is another")
    Sc(ctx, "process", f).run("setting up the process of a sub pool", go)


def _servers(ctx):
    for cls in pools(ctx):
        _servers_of(ctx, cls)


def _servers_of(ctx, cls):
    f = ctx.method(cls, "create") if cls.name.startswith("Sub") else ctx.method(ctx.cls(POOL, "ActorPoolBase"), "create")
    sub = cls.name.startswith("Sub")

    def go(it):
        tls(it)
        own = outcome(it, "addresses", "external and internal", "external only", "two external", "internal is external", "a free port")
        ext = {"two external": lst("h:1", "ucx://h:2"), "a free port": "h:0"}.get(own, "h:1")
        inner = {"external only": None, "internal is external": "h:1"}.get(own, "unixsocket:///7")
        c = it.call(ctx.cls("backends.config", "ActorPoolConfig"), [], [])
        add = it.attr(c, "add_pool_conf")
        mods = outcome(it, "modules", None, ("m.a", "m.b"))
        mine = [("env", T("env")), ("modules", None if mods is None else lst(*mods))]
        if sub:
            it.call(add, [3, "lm", None, "main:1"], [])
        it.call(add, [7, "l7", inner, ext], mine)
        it.call(it.attr(c, "add_comm_config"), [Dct([("listen_elastic_ip", True), ("k", 1)])], [])
        it.call(it.attr(c, "add_proxy_config"), [Dct([("far:1", "near:1")])], [])
        loaded, made, glob = [], [], []
        it.stubs["__import__"] = it.stubs["builtins.__import__"] = lambda it, a, k: loaded.append(a[0])
        it.stubs["TypeDispatcher.reload_all_lazy_handlers"] = lambda it, a, k: loaded.append("lazy")
        it.stubs["backends.pool._disable_log_temporally"] = lambda it, a, k: Stub("nullcontext", methods={"__enter__": lambda it, a, k: None, "__exit__": lambda it, a, k: None})
        it.stubs["backends.core.ActorCaller"] = lambda it, a, k: Stub("caller", methods={"stop": lambda it, a, k: Coro(lambda: None, "stop")})
        it.stubs["gen_local_address"] = it.stubs["backends.communication.gen_local_address"] = lambda it, a, k: f"dummy://{a[0]}"
        it.stubs["AbstractActorPool._set_global_router"] = it.stubs["ActorPoolBase._set_global_router"] = lambda it, a, k: glob.append(a[-1])

        class_of = {}

        def server_type(it, a, k):
            addr = a[0]

            def screate(it, a, k):
                d = dict(items_of(a[0]))

                def run():
                    it.claim("lazy" in loaded, "connections are accepted before the handlers are loaded")
                    made.append((addr, d))
                    return Stub("server " + addr, {"address": addr if not addr.endswith(":0") else "h:4711"}, {"stop": lambda it, a, k: Coro(lambda: None, "stop")})
                return Coro(run, "create")
            t = class_of.setdefault(addr, Stub("type " + addr, {}, {"parse_config": lambda it, a, k: Dct([("listen_elastic_ip", dget(a[0], "listen_elastic_ip"))]) if addr.startswith("h:") else Dct(), "create": screate}))
            return t
        it.stubs["get_server_type"] = server_type
        cf = Dct([("actor_pool_config", c), ("process_index", 7)])
        if sub:
            it.setitem(cf, "main_pool_pid", None)
        else:
            it.setitem(cf, "auto_recover", outcome(it, "recover", "actor", "process", False))
            it.setitem(cf, "on_process_down", T("down"))
            it.setitem(cf, "on_process_recover", T("up"))
        st, p = attempt(it, lambda: it.await_(it.call(it.attr(cls, "create"), [cf], [])))
        it.claim(st == "ok", f"a pool cannot be created ({cname(p) or p})")
        if st != "ok":
            return
        want = {"external and internal": ["h:1", "unixsocket:///7"], "external only": ["h:1"], "two external": ["h:1", "ucx://h:2", "unixsocket:///7"], "internal is external": ["h:1"], "a free port": ["h:0", "unixsocket:///7"]}[own] + ["dummy://7"]
        it.claim(sorted(a for a, _ in made) == sorted(want), "the pool does not listen on its external, internal and local addresses")
        it.claim(len(it.parts_of(it.attr(p, "_servers"))) == len(want), "the pool forgets one of its servers")
        seen = []
        it.setattr(p, "on_new_channel", Native(lambda it, a, k: (seen.append(a[0]), Coro(lambda: None, "serve"))[1], "on_new_channel"))
        for a, d in made:
            it.claim(d.get("address") == a and set(d) == ({"address", "handle_channel", "listen_elastic_ip"} if a.startswith("h:") else {"address", "handle_channel"}), "a server gets another configuration")
            if "handle_channel" in d:
                ch = Stub("channel " + a, {})
                it.await_(it.call(d["handle_channel"], [ch], []))
                it.claim(seen[-1:] == [ch], "a connection is not served by the pool")
        it.claim([x for x in loaded if x != "lazy"] == list(mods or ()), "the modules asked for are not loaded")
        it.claim(it.attr(p, "process_index") == 7 and it.attr(p, "label") == "l7" and it.attr(p, "env") == T("env"), "the pool has another index, label or environment")
        listens = "h:4711" if own == "a free port" else "h:1"
        it.claim(it.attr(p, "external_address") == listens, "the pool has another address than it listens on")
        it.claim(it.attr(p, "internal_address") == (inner if own != "a free port" else "unixsocket:///7"), "the pool has another internal address")
        it.claim(strs(it, dget(it.call(it.attr(c, "get_pool_config"), [7], []), "external_address"))[0] == listens, "the configuration names another address than the pool listens on")
        r = it.attr(p, "_router")
        it.claim(glob == [r], "the routes of the pool are not made known to the process")
        it.claim(it.attr(r, "external_address") == listens, "the router names another address")
        it.claim(it.truth(it.call(it.attr(r, "get_proxy"), ["far:1"], [])) and it.call(it.attr(r, "get_proxy"), ["far:1"], []) == "near:1", "the proxies are not known to the router")
        if sub:
            it.claim(it.attr(p, "_main_address") == "main:1", "the sub pool does not know its main pool")
        else:
            it.claim(it.attr(p, "_auto_recover") == dget(cf, "auto_recover") and it.attr(p, "_on_process_down") == T("down") and it.attr(p, "_on_process_recover") == T("up"), "the recover mode or the callbacks are lost")
    Sc(ctx, "servers", f).run(f"servers of a {'sub' if sub else 'main'} pool", go, max_paths=3000)


def _ports(ctx):
    f = ctx.func("utils", "get_next_port")

    def go(it):
        m = f.module
        it.mods[(m.name, "LOW_PORT_BOUND")], it.mods[(m.name, "HIGH_PORT_BOUND")] = 10, 13
        it.mods[(m.name, "_local_occupied_ports")] = Seq("set", [])
        it.exts["sys.platform"] = "linux"
        used = outcome(it, "ports in use", (), (10,), (13,), (11, 12), (10, 11, 12, 13), (9, 14, 10))
        it.exts["socket.SOCK_STREAM"] = 1
        it.stubs["psutil.net_connections"] = lambda it, a, k: Seq("list", [Stub("conn", {"type": 1, "laddr": Stub("laddr", {"port": p})}) for p in used] + [Stub("conn", {"type": 2, "laddr": Stub("laddr", {"port": 12})})])
        it.stubs["random.seed"] = lambda it, a, k: None
        it.stubs["uuid.uuid1"] = lambda it, a, k: Stub("u", {"bytes": b"x"})
        it.stubs["random.randint"] = lambda it, a, k: outcome(it, "random", 0, 1, 2, 7)
        free = 4 - len([p for p in used if 10 <= p <= 13])
        got = []
        for i in range(2):
            st, r = attempt(it, lambda: it.call(f, [], []))
            if i >= free:
                it.claim(st == "raise", "a port is handed out although none is free")
                return
            it.claim(st == "ok", f"no port is found although one is free ({cname(r) or r})")
            if st != "ok":
                return
            it.claim(isinstance(r, int) and 10 <= r <= 13, "a port out of range is handed out")
            it.claim(r not in used, "a port in use is handed out")
            it.claim(r not in got, "one port is handed out twice")
            got.append(r)
    Sc(ctx, "ports", f).run("choosing a port", go, max_paths=2000)

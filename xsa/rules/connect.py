"""C32: a connection made to an address reaches the server that listens there, by abstract interpretation of the servers
and clients of every transport over stubs of asyncio's servers and connections."""
import ast
import posixpath

from .records import *
from .stopping import nap

COMM = "backends.communication"


def connect(ctx: Ctx):
    mods = {m: ctx.prog.module(f"{COMM}.{m}") for m in ("socket", "dummy", "ucx", "core", "base")}
    servers = [mods["socket"].defs["SocketServer"], mods["socket"].defs["UnixSocketServer"], mods["dummy"].defs["DummyServer"], mods["ucx"].defs["UCXServer"]]
    _schemes(ctx, mods, servers)
    for s in (servers[0], servers[3]):
        _listen(ctx, s)
        _reach(ctx, s)
    _settings(ctx, servers[0])
    _unix(ctx, mods)
    for s in (servers[0], servers[1], servers[3]):
        _accept(ctx, s)
    _dummy(ctx, mods)


def _schemes(ctx, mods, servers):
    core = mods["core"]
    f = core.defs["get_client_type"]

    def go(it):
        it.mods[(core.name, "_scheme_to_client_types")], it.mods[(core.name, "_scheme_to_server_types")] = Dct(), Dct()
        n = 0
        for m in ("dummy", "socket", "ucx"):
            for c in mods[m].classes:
                for d in c.node.decorator_list:
                    r = ctx.prog.resolve_expr(c.module, d.func if isinstance(d, ast.Call) else d)
                    if getattr(r, "name", None) in ("register_client", "register_server"):
                        n += 1
                        it.claim(it.call(r, [c], []) is c, "registering a transport changes its class")
        want = {"127.0.0.1:80": "Socket", "h:0": "Socket", "[::1]:80": "Socket", "unixsocket:///7": "UnixSocket", "dummy://7": "Dummy", "dummy://": "Dummy", "ucx://h:1": "UCX", "://h:1": "Socket"}
        for addr in list(want) + ["other://h:1"]:
            for kind in ("server", "client"):
                st, r = attempt(it, lambda: it.call(core.defs[f"get_{kind}_type"], [addr], []))
                if addr not in want:
                    it.claim(st == "raise" and err_is(it, r, "ValueError"), "an address of an unknown transport is accepted")
                else:
                    it.claim(st == "ok" and getattr(r, "name", None) == want[addr] + kind.capitalize(), f"an address is served by another transport ({addr})")
        for s in servers:
            c = it.attr(s, "client_type")
            it.claim(getattr(c, "name", None) == s.name.replace("Server", "Client"), "a server names clients of another transport")
            it.claim(it.attr(s, "scheme") == it.attr(c, "scheme"), "client and server of a transport have different schemes")
        kinds = {n: it.attr(mods["base"].defs["ChannelType"], n) for n in ("local", "ipc", "remote")}
        for s, w in zip(servers, ("remote", "ipc", "local", "remote")):
            o = Obj(s, {})
            it.claim(freeze(it.attr(o, "channel_type")) == freeze(kinds[w]), f"{s.name} makes channels of another type")
        it.claim(it.call(core.defs["gen_local_address"], [5], []) == "dummy://5", "the local address of a process is another")
    Sc(ctx, "scheme", f).run("transport of an address", go)


def listener(it, got, port, how="works"):
    """asyncio.start_server / start_unix_server / ucp.create_listener"""
    sock = Stub("socket", {}, {"getsockname": lambda it, a, k: Seq("tuple", ["0.0.0.0", port]), "setsockopt": lambda it, a, k: None})
    aio = Stub("aio server", {"sockets": Seq("list", [sock]), "port": port}, {"close": lambda it, a, k: None, "is_serving": lambda it, a, k: True})

    def start(it, a, k):
        got.append((a[0], list(a[1:]), dict(flat_args(it, [], k)[1])))

        def run():
            if how != "works":
                it.raise_(how)
            return aio
        return Coro(run, "start_server")
    return aio, start


def ucp(it, mod, **kw):
    err = Stub("ucp.exceptions", {"UCXError": ("ext", "UCXError")})
    it.mods[(mod.name, "ucp")] = Stub("ucp", {"exceptions": err}, kw)
    inits = []
    it.stubs["UCXInitializer.init"] = lambda it, a, k: inits.append(a[0] if a else dict(k).get("ucx_config"))
    return inits


def _settings(ctx, cls):
    f = ctx.method(cls, "parse_config")

    def go(it):
        given = outcome(it, "settings", None, "none", "other", "elastic", "not elastic")
        cfg = None if given is None else Dct({"none": [], "other": [("other", 1)], "elastic": [("listen_elastic_ip", True), ("other", 1)], "not elastic": [("listen_elastic_ip", False)]}[given])
        st, v = attempt(it, lambda: it.call(it.attr(cls, "parse_config"), [cfg], []))
        want = {"elastic": True, "not elastic": False}.get(given)
        it.claim(st == "ok" and dget(v, "listen_elastic_ip") in ((True,) if want else (None, False)) and dget(v, "other") is None, "a server listens elsewhere than its settings say, or is given settings it does not know")
    Sc(ctx, "listen", f).run("settings of a server", go)


def _listen(ctx, cls):
    f = ctx.method(cls, "create")
    isucx = cls.name.startswith("UCX")

    def go(it):
        how = outcome(it, "listening", "works", "OSError")
        port = outcome(it, "port", 0, 80)
        aio, start = listener(it, got := [], 4711 if port == 0 else port, how)
        it.stubs["asyncio.start_server"] = start
        if isucx:
            def lis(it, a, k):
                got.append((a[0], list(a[1:]), dict(k)))
                if how != "works":
                    it.raise_(how)
                return aio
            inits = ucp(it, cls.module, create_listener=lis)
        host = outcome(it, "host", "10.0.0.1", "::1", "name")
        handler = Native(lambda it, a, k: Coro(lambda: None, "handler"), "handler")
        cfg = Dct([("handle_channel", handler)])
        form = outcome(it, "given as", "address", "host and port")
        if form == "address":
            it.setitem(cfg, "address", ("ucx://" if isucx and outcome(it, "scheme", True, False) else "") + f"{host}:{port}")
        else:
            it.setitem(cfg, "host", host)
            it.setitem(cfg, "port", outcome(it, "port given as", port, str(port)))
        el = outcome(it, "elastic", None, True, False)
        if el is not None:
            it.setitem(cfg, "listen_elastic_ip", el)
        own = isucx and outcome(it, "ucx settings", True, False)
        if own:
            it.setitem(cfg, "ucx", Dct([("tcp", True)]))
        serve = None if isucx else outcome(it, "start_serving", None, True)
        if serve:
            it.setitem(cfg, "start_serving", True)
        before = items_of(cfg)
        st, s = attempt(it, lambda: it.await_(it.call(it.attr(cls, "create"), [cfg], [])))
        it.claim(items_of(cfg) == before, "the configuration given is changed")
        if how != "works":
            it.claim(st == "raise" and err_is(it, s, how), "a server that cannot listen is not an error")
            return
        it.claim(st == "ok", f"a server cannot be created ({cname(s) or s})")
        if st != "ok" or not got:
            return
        _, a, k = got[0]
        if isucx:
            it.claim(len(inits) == 1 and items_of(inits[0]) == ([("tcp", True)] if own else []), "ucx is initialised with other settings than given")
            it.claim((k.get("port", a[0] if a else None)) == port, "the server listens on another port")
        else:
            it.claim(k.get("host", a[0] if a else None) == (("::" if ":" in host else "0.0.0.0") if el else host), "the server listens on another interface than asked for")
            p = k.get("port", a[1] if len(a) > 1 else None)
            it.claim(p == port or port == 0 and p is None, "the server listens on another port")
            it.claim(set(k) <= {"host", "port", "start_serving"}, "asyncio is given an argument that is not its own")
            it.claim(k.get("start_serving") is (True if serve else False), "the server accepts connections before it is started")
        pre = "ucx://" if isucx else ""
        it.claim(it.attr(s, "address") == f"{pre}{host}:{4711 if port == 0 else port}", "the server names another address than the one it listens on")
        it.claim(it.attr(s, "channel_handler") is handler, "connections are handed to something else")
    Sc(ctx, "listen", f).run("listening at an address", go, max_paths=2000)


def _reach(ctx, cls):
    cl = cls.module.defs[cls.name.replace("Server", "Client")]
    f = ctx.method(cl, "connect")
    isucx = cls.name.startswith("UCX")

    def go(it):
        how = outcome(it, "connecting", "works", "ConnectionRefusedError", "OSError", "CancelledError", *(["UCXError"] if isucx else ["hangs"]))
        got, waited = [], []
        rd, wr = Stub("reader"), Stub("writer", {}, {"is_closing": lambda it, a, k: False})
        ep = Stub("endpoint", {}, {"set_close_callback": lambda it, a, k: None})

        def op(it, a, k):
            d = dict(k)
            got.append((d.get("host", a[0] if a else None), d.get("port", a[1] if len(a) > 1 else None)))

            def run():
                if how == "hangs":
                    nap(it, 10 ** 6)
                elif how == "UCXError":
                    raise Raised(Exc("UCXError", []), "ucp")
                elif how != "works":
                    it.raise_(how)
                return ep if isucx else Seq("tuple", [rd, wr])
            return Coro(run, "open_connection")
        it.stubs["asyncio.open_connection"] = op
        if isucx:
            inits = ucp(it, cls.module, create_endpoint=op)
        host = outcome(it, "host", "10.0.0.1", "::1")
        cfg = outcome(it, "configuration", None, "empty", "given")
        own = [("ucx", Dct([("tcp", True)]))] if isucx else [("connect_timeout", 3)]
        kw = [("config", Dct(own if cfg == "given" else []))] if cfg else []
        pre = "ucx://" if isucx and outcome(it, "scheme", True, False) else ""
        it.exts["os.environ"] = Dct()
        t0 = it.now
        st, c = attempt(it, lambda: it.await_(it.call(it.attr(cl, "connect"), [f"{pre}{host}:81"], [("local_address", "me:1")] + kw)))
        if isucx:
            it.claim(len(inits) == 1 and items_of(inits[0]) == ([("tcp", True)] if cfg == "given" else []), "ucx is initialised with other settings than given")
        it.claim(got == [(host, 81)], "another place than the one asked for is connected")
        if how != "works":
            want = {"hangs": "ConnectionError", "UCXError": "ChannelClosed"}.get(how, how)
            it.claim(st == "raise" and err_is(it, c, want), f"a connection that cannot be made is not reported as {want}")
            if how == "hangs" and cfg == "given":
                it.claim(it.now - t0 <= 3.5, "connecting waits longer than asked for")
            return
        it.claim(st == "ok", f"a connection cannot be made ({cname(c) or c})")
        if st != "ok":
            return
        it.claim(isinstance(c, Obj) and c.cls is cl and it.attr(c, "dest_address") in (f"{pre}{host}:81", f"{host}:81") and it.attr(c, "local_address") == "me:1", "the client names another connection")
        ch = it.attr(c, "channel")
        it.claim(it.attr(ch, "dest_address") in (f"{pre}{host}:81", f"{host}:81") and it.attr(ch, "local_address") == "me:1", "the channel names another connection")
        if isucx:
            it.claim(ep in [it.attr(ch, n) for n in ("ucp_endpoint", "_ucp_endpoint") if n in ch.attrs], "the channel uses another connection")
        else:
            it.claim(it.attr(ch, "reader") is rd and it.attr(ch, "writer") is wr, "the channel uses another connection")
        rem = it.attr(it.prog.module(f"{COMM}.base").defs["ChannelType"], "remote")
        it.claim(freeze(it.attr(ch, "type")) == freeze(rem), "a remote channel has another type")
    Sc(ctx, "reach", f).run("connecting to an address", go, max_paths=2000)


def _unix(ctx, mods):
    sv, cl = mods["socket"].defs["UnixSocketServer"], mods["socket"].defs["UnixSocketClient"]
    f = ctx.method(cl, "connect")

    def go(it):
        i, j = outcome(it, "server", 7, 71, 12345, 10007), outcome(it, "client", 7, 71, 12345, 1234)
        own = outcome(it, "path", None, "/tmp/own/sock")
        how = outcome(it, "connecting", "works", "FileNotFoundError", "ConnectionRefusedError")
        got, opened, dirs = [], [], []
        aio, start = listener(it, got, None)
        it.stubs["asyncio.start_unix_server"] = start
        it.stubs["os.makedirs"] = lambda it, a, k: dirs.append(a[0])
        it.stubs["os.path.exists"] = lambda it, a, k: False
        it.stubs["os.path.dirname"] = lambda it, a, k: posixpath.dirname(a[0])
        it.mods[(cl.module.name, "XOSCAR_UNIX_SOCKET_DIR")] = "/base/sockets"
        it.stubs["hashlib.md5"] = it.stubs["md5"] = lambda it, a, k: Stub("md5", {}, {"hexdigest": lambda it, b, kk: "md5-" + (a[0].decode() if isinstance(a[0], bytes) else str(a[0]))})
        rd, wr = Stub("reader"), Stub("writer", {}, {"is_closing": lambda it, a, k: False})

        def op(it, a, k):
            opened.append((list(a), dict(k)))

            def run():
                if how != "works":
                    it.raise_(how)
                return Seq("tuple", [rd, wr])
            return Coro(run, "open")
        it.stubs["asyncio.open_unix_connection"] = op
        handler = Native(lambda it, a, k: Coro(lambda: None, "handler"), "handler")
        form = outcome(it, "given as", "address", "process index")
        cfg = Dct([("handle_channel", handler), ("address", f"unixsocket:///{i}") if form == "address" else ("process_index", i)])
        if own:
            it.setitem(cfg, "path", own)
        st, s = attempt(it, lambda: it.await_(it.call(it.attr(sv, "create"), [cfg], [])))
        it.claim(st == "ok" and bool(got), f"a server cannot be created ({cname(s) or s})")
        if st != "ok" or not got:
            return
        _, a, k = got[0]
        path = k.get("path", a[0] if a else None)
        it.claim(own is None or path == own, "the server listens at another path than asked for")
        it.claim(k.get("start_serving") is False, "the server accepts connections before it is started")
        it.claim(posixpath.dirname(path) in dirs, "the directory of the socket is not made")
        it.claim(it.attr(s, "address") == f"unixsocket:///{i}" and it.attr(s, "path") == path and it.attr(s, "process_index") == i, "the server names another place than it listens at")
        it.claim(it.attr(s, "channel_handler") is handler, "connections are handed to something else")
        kw = [("path", own)] if own else []
        st, c = attempt(it, lambda: it.await_(it.call(it.attr(cl, "connect"), [f"unixsocket:///{j}"], [("local_address", "me:1")] + kw)))
        to = (opened[0][1].get("path", opened[0][0][0] if opened[0][0] else None)) if opened else None
        it.claim((to == path) == (i == j or own is not None), "a client of a process index is connected to another process")
        if how != "works":
            it.claim(st == "raise" and err_is(it, c, "ConnectionRefusedError"), "a server that is not there is not reported as refusing")
            return
        it.claim(st == "ok", f"a connection cannot be made ({cname(c) or c})")
        if st != "ok":
            return
        ch = it.attr(c, "channel")
        it.claim(it.attr(ch, "reader") is rd and it.attr(ch, "writer") is wr, "the channel uses another connection")
        for o in (c, ch):
            it.claim(it.attr(o, "dest_address") == f"unixsocket:///{j}" and it.attr(o, "local_address") == "me:1", "the client names another connection")
        ipc = it.attr(it.prog.module(f"{COMM}.base").defs["ChannelType"], "ipc")
        it.claim(freeze(it.attr(ch, "type")) == freeze(ipc), "an ipc channel has another type")
    Sc(ctx, "reach", f).run("connecting to a process", go, max_paths=2000)


def _accept(ctx, cls):
    f = ctx.method(cls, "on_connected")
    isucx = cls.name.startswith("UCX")

    def go(it):
        got = []
        aio, start = listener(it, got, 4711)
        it.stubs["asyncio.start_server"] = it.stubs["asyncio.start_unix_server"] = start
        it.stubs["os.makedirs"] = lambda it, a, k: None
        it.stubs["os.path.exists"] = lambda it, a, k: True
        it.stubs["hashlib.md5"] = it.stubs["md5"] = lambda it, a, k: Stub("md5", {}, {"hexdigest": lambda it, b, kk: "x"})
        if isucx:
            def lis(it, a, k):
                got.append((a[0], a[1:], k))
                return aio
            ucp(it, cls.module, create_listener=lis)
        seen = []
        ends = [outcome(it, f"connection {i} ends with", "return", "OSError", "CancelledError", "return after closing") for i in range(ctx.more(2, 3))]

        def handle(it, a, k):
            i = len(seen)
            seen.append(a[0])
            it.claim(len(a) == 1 and not k, "the handler gets something else than the channel")

            def run():
                nap(it, 2 - i)
                if ends[i] == "return after closing":
                    it.await_(it.call(it.attr(a[0], "close"), [], []))
                elif ends[i] != "return":
                    it.raise_(ends[i])
            return Coro(run, "handler")
        addr = "unixsocket:///7" if cls.name.startswith("Unix") else "h:80"
        s = it.await_(it.call(it.attr(cls, "create"), [Dct([("address", addr), ("handle_channel", Native(handle, "handler"))])], []))
        cb = got[0][0]
        ws, args = [], []
        for i in range(2):
            st = {"closed": 0}

            def close(it, a, k, st=st):
                st["closed"] += 1
            w = Stub(f"writer{i}", {}, {"is_closing": lambda it, a, k, st=st: st["closed"] > 0, "close": close, "wait_closed": lambda it, a, k: Coro(lambda: None, "wait_closed"),
                                        "abort": close, "set_close_callback": lambda it, a, k: None})
            if isucx:
                w.methods["close"] = lambda it, a, k, st=st: Coro(lambda: st.__setitem__("closed", st["closed"] + 1), "close")
            ws.append((w, st))
            args.append([w] if isucx else [Stub(f"reader{i}"), w])
        ts = []
        for i in range(2):
            ts.append(it.spawn(it.call(cb, args[i], []), f"connection {i}"))
            nap(it, 0.1)
            chans = list(it.parts_of(it.attr(s, "_channels")))
            it.claim(len(seen) == i + 1 and len(chans) == i + 1 and any(c is seen[-1] for c in chans), "a connection is not handed to the handler once and kept while it is served")
            if len(seen) != i + 1:
                return
            ch = seen[-1]
            if isucx:
                it.claim(any(v is args[i][0] for v in ch.attrs.values()), "the handler gets the channel of another connection")
            else:
                it.claim(it.attr(ch, "reader") is args[i][0] and it.attr(ch, "writer") is args[i][1], "the handler gets the channel of another connection")
                it.claim(it.attr(ch, "local_address") == it.attr(s, "address"), "a channel names another local address")
                it.claim(freeze(it.attr(ch, "type")) == freeze(it.attr(s, "channel_type")), "a channel has another type than its server makes")
        nap(it, 1.2)
        left = list(it.parts_of(it.attr(s, "_channels")))
        it.claim(len(left) == 1 and left[0] is seen[0], "a channel whose handler ended is kept, or one that is served is forgotten")
        it.claim(ws[1][1]["closed"] >= 1, "a channel whose handler ended is left open")
        it.claim(ws[0][1]["closed"] == 0, "the channel of another connection is closed")
        nap(it, 5)
        it.claim(not it.parts_of(it.attr(s, "_channels")) and ws[0][1]["closed"] >= 1, "a channel whose handler ended is left open")
        for t, e in zip(ts, ends):
            it.claim(t.done, "a connection does not end with its handler")
    Sc(ctx, "accept", f).run("accepting connections", go, max_paths=2000)


def _dummy(ctx, mods):
    sv, cl = mods["dummy"].defs["DummyServer"], mods["dummy"].defs["DummyClient"]
    f = ctx.method(cl, "connect")

    def go(it):
        it.stubs["weakref.WeakValueDictionary"] = lambda it, a, k: Dct()
        it.stubs["weakref.WeakSet"] = lambda it, a, k: Seq("set", [])
        seen, ended = {}, []

        def handler(name):
            def h(it, a, k):
                seen.setdefault(name, []).append(a[0])

                def run():
                    try:
                        nap(it, 10 ** 5)
                    finally:
                        ended.append(name)
                return Coro(run, "handler")
            return Native(h, "handler")

        def create(addr, name):
            return attempt(it, lambda: it.await_(it.call(it.attr(sv, "create"), [Dct([("address", addr), ("handle_channel", handler(name))])], [])))

        def reach(addr):
            return attempt(it, lambda: it.await_(it.call(it.attr(cl, "connect"), [addr], [("local_address", "me:1")])))
        st, v = create("h:1", "bad")
        it.claim(st == "raise" and err_is(it, v, "ValueError"), "an address of another transport is accepted")
        st, a = create("dummy://1", "a")
        st2, b = create("dummy://2", "b")
        it.claim(st == st2 == "ok" and a is not b, "two servers cannot be created")
        if not (st == st2 == "ok"):
            return
        st, v = reach("dummy://3")
        it.claim(st == "raise", "a server that does not exist is connected")
        st, v = reach("h:1")
        it.claim(st == "raise" and err_is(it, v, "ValueError"), "an address of another transport is connected")
        st, a2 = create("dummy://1", "a again")
        it.claim(st == "ok" and a2 is a, "a second server takes over the connections of the first one")
        ev = outcome(it, "then", "connect", "stop", "stop and create again")
        name = "a"
        if ev != "connect":
            it.await_(it.call(it.attr(a, "stop"), [], []))
            it.claim(it.truth(it.attr(a, "stopped")), "a stopped server is not stopped")
            it.claim(not it.truth(it.attr(b, "stopped")), "stopping one server stops another")
            if ev == "stop":
                st, v = reach("dummy://1")
                it.claim(st == "raise" and err_is(it, v, "ConnectionError"), "a stopped server is connected")
                return
            st, a = create("dummy://1", "new")
            it.claim(st == "ok" and not it.truth(it.attr(a, "stopped")), "a stopped server is handed out")
            name = "new"
        st, c = reach("dummy://1")
        it.claim(st == "ok", f"a server cannot be connected ({cname(c) or c})")
        if st != "ok":
            return
        nap(it, 0.1)
        it.claim(list(seen) == [name] and len(seen[name]) == 1, "a connection is not handed to the handler of its server once")
        if list(seen) != [name]:
            return
        st, c2 = reach("dummy://1")
        nap(it, 0.1)
        it.claim(len(seen[name]) == 2, "a connection is not handed to the handler of its server once")
        if len(seen[name]) != 2:
            return
        (s1, s2) = seen[name]
        send = lambda o, m: it.await_(it.call(it.attr(o, "send"), [m], []))  # noqa: E731
        recv = lambda o: it.await_(it.call(it.attr(o, "recv"), [], []))  # noqa: E731
        send(c, T("m1"))
        send(c2, T("m2"))
        send(s1, T("r1"))
        send(s2, T("r2"))
        it.claim(recv(s2) == T("m2") and recv(s1) == T("m1") and recv(c) == T("r1") and recv(c2) == T("r2"), "what one side of a connection sends does not reach the other side")
        it.claim(it.attr(c, "dest_address") == "dummy://1" and it.attr(c, "local_address") == "me:1", "the client names another connection")
        it.await_(it.call(it.attr(c, "close"), [], []))
        it.claim(it.truth(it.attr(s1, "closed")) and it.truth(it.attr(c, "closed")) and not it.truth(it.attr(s2, "closed")) and not it.truth(it.attr(c2, "closed")), "closing a connection closes another, or only one side")
        nap(it, 0.1)
        cut = it.call(it.attr(a, "stop"), [], [])
        it.await_(cut)
        nap(it, 0.1)
        it.claim(ended == [name, name] and it.truth(it.attr(c2, "closed")), "a handler goes on after its server stopped")
    Sc(ctx, "reach", f).run("connecting within a process", go, max_paths=400)

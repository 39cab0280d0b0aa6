"""C16: the cache of connections, its confinement to a thread, and the bookkeeping of routes; by abstract interpretation."""
import ast

from ..shapes import Bound, Clo, Obj, Part, Seq, Dct
from .records import *
from .topology import Group, indigen, MAIN, SUB1, SUB2, mk_router
from .proxies import lazy
from .stopping import nap

PX = Seq("list", ["p:1"])


class Threads:
    """threading.local with one store per thread; the environment switches threads."""

    def __init__(self, it):
        self.it, self.cur, self.n = it, "t1", 0
        it.stubs["threading.local"] = self.local
        it.stubs["threading.current_thread"] = lambda it, a, k: Stub("thread " + self.cur, {"name": self.cur})
        it.stubs["threading.get_ident"] = lambda it, a, k: self.cur

    def local(self, it, a, k):
        stores = {}
        self.stores = getattr(self, "stores", []) + [stores]

        def get(it, n):
            st = stores.setdefault(self.cur, {})
            if n not in st:
                it.raise_("AttributeError", n)
            return st[n]

        def put(it, a, k):
            stores.setdefault(self.cur, {})[a[0]] = a[1]
        return Stub("local", {}, {"__setattr__": put}, default=get)


def types(it, opened, slow=False):
    """client types by address, each connection a new object"""
    made = {}

    def tp(it, a, k):
        kind = a[-1].split(":")[0] if isinstance(a[-1], str) else "?"
        if kind not in made:
            def connect(it, a2, k2, kind=kind):
                def run():
                    if slow:
                        it.pause()
                        it.pause()
                    c = Stub(f"connection {len(opened)}", {"closed": False, "dest_address": a2[0], "local_address": dict(k2).get("local_address")})
                    opened.append((a2[0], c))
                    return c
                return Coro(run, "connect")
            made[kind] = Stub("client type " + kind, {}, {"connect": connect, "parse_config": lambda it, a, k: None})
        return made[kind]
    for n in ("communication.core.get_client_type", "core.get_client_type"):
        it.stubs[n] = tp
    return tp


def clients(ctx: Ctx):
    cls = ctx.prog.module("backends.router").defs["Router"]
    f, g = ctx.method(cls, "get_client"), ctx.method(cls, "get_client_via_type")

    def router(it):
        return mk_router(it, Seq("list", ["own:1"]), "dummy:0", Dct([("own:1", "unix:own"), ("sub:1", "unix:sub1"), ("sub:2", "unix:sub2")]))

    def expect(dest, px):
        return {"own:1": "dummy:0", "sub:1": "unix:sub1", "sub:2": "unix:sub2"}.get(dest) or (px or dest)

    def cache(it, via):
        th = Threads(it)
        opened = []
        tp = types(it, opened)
        r = router(it)
        fam = lambda d: tp(it, [expect(d, None)], [])

        def get(dest, who, px=None, cached=True):
            if via:
                return it.await_(it.call(it.attr(r, "get_client_via_type"), [dest, fam(dest)], [("from_who", who), ("cached", cached)]))
            return it.await_(it.call(it.attr(r, "get_client"), [dest], [("from_who", who), ("cached", cached), ("proxy_addresses", px)]))
        dest = outcome(it, "address", "far:1", "sub:1", "own:1")
        px1 = outcome(it, "route of the first", None, PX) if not via and dest == "far:1" else None
        c1 = get(dest, T("a"), px1, cached=(first := outcome(it, "first is cached", True, False)))
        it.claim(len(opened) == 1 and opened[0][1] is c1 and opened[0][0] == expect(dest, px1 and "p:1"), "a new connection does not lead to the address it is for")
        d2, w2, px2 = dest, T("a"), px1
        what = outcome(it, "between the two", "nothing", "another user", "another address", "another route", "closed", "another thread", "not cached",
                       "routes change", "routes added", "routes removed")
        want = expect
        if what == "another user":
            w2 = T("b")
        elif what == "another address":
            d2 = "far:2" if dest == "far:1" else "sub:2"
        elif what == "another route":
            if via or dest != "far:1":
                return
            px2 = None if px1 else PX
        elif what == "closed":
            c1.attrs["closed"] = True
        elif what == "another thread":
            th.cur = "t2"
        elif what.startswith("routes"):
            if via or dest == "own:1":
                return
            if what == "routes change":
                it.call(it.attr(r, "set_mapping"), [Dct([(dest, "unix:moved")])], [])
                want = lambda d, p: "unix:moved"
            elif what == "routes added":
                it.call(it.attr(r, "add_router"), [mk_router(it, Seq("list", []), None, Dct([(dest, "unix:moved")]))], [])
                want = lambda d, p: "unix:moved"
            else:
                it.call(it.attr(r, "remove_router"), [mk_router(it, Seq("list", []), None, Dct([("sub:1", "unix:sub1")]))], [])
                want = lambda d, p: (p or d)
        c2 = get(d2, w2, px2, cached=what != "not cached")
        new = c2 is not c1
        it.claim(c2.attrs["closed"] is False, "a closed connection is given out")
        if new:
            it.claim(len(opened) == 2 and opened[1][1] is c2 and opened[1][0] == want(d2, px2 and "p:1"), "a new connection does not lead to the address it is for")
        else:
            it.claim(opened[0][0] == want(d2, px2 and "p:1"), "a cached connection that leads elsewhere is given out")
        if what == "nothing" and first:
            it.claim(not new, "the open cached connection of the same user, address and route is not used again")
        if what in ("another user", "another thread", "not cached") or not first:
            it.claim(new, {"another user": "two users share a connection", "another thread": "a connection is used by a thread that did not create it"}.get(what, "a connection that was asked for uncached is shared"))
        if what == "closed" and first and outcome(it, "asked again", True, False):
            it.claim(get(d2, w2, px2) is c2, "the connection that replaced a closed one is not used again")
        if what == "another thread" and first:
            th.cur = "t1"
            it.claim(get(dest, T("a"), px1) is c1, "the open cached connection of the same user, address and route is not used again")
    Sc(ctx, "cache", f).run("two requests for a connection", lambda it: cache(it, False))
    Sc(ctx, "cache", g).run("two requests for a connection of a type", lambda it: cache(it, True))

    def race(it):
        Threads(it)
        opened = []
        types(it, opened, slow=True)
        r = router(it)
        ts = [it.spawn(it.call(it.attr(r, "get_client"), ["far:1"], [("from_who", T("a"))]), f"request {i}") for i in range(2)]
        it.drain()
        it.claim(all(t.state == "done" for t in ts), "a request for a connection never ends")
        it.claim(len(opened) == 1 and all(t.value is opened[0][1] for t in ts if t.state == "done"), "two requests at the same time open two connections, of which one is lost")
    Sc(ctx, "cache", f).run("two requests at the same time", race)

    def failing(it):
        Threads(it)
        opened = []
        types(it, opened)
        r = router(it)
        ok = [False]
        st0 = it.stubs["core.get_client_type"]

        def tp(it, a, k):
            t = st0(it, a, k)
            good = t.methods["connect"]

            def connect(it, a2, k2):
                def run():
                    if not ok[0]:
                        it.raise_("ConnectionRefusedError")
                    return it.await_(good(it, a2, k2))
                return Coro(run, "connect")
            return Stub("client type", {}, {"connect": connect, "parse_config": t.methods["parse_config"]})
        for n in ("communication.core.get_client_type", "core.get_client_type"):
            it.stubs[n] = tp
        go = lambda: attempt(it, lambda: it.await_(it.call(it.attr(r, "get_client"), ["far:1"], [("from_who", T("a"))])))
        st, _ = go()
        it.claim(st == "raise", "a connection that could not be made is given out")
        ok[0] = True
        st, v = go()
        it.claim(st == "ok" and len(opened) == 1 and v is opened[0][1], "after a failed attempt no connection is made")
    Sc(ctx, "cache", f).run("a connection that cannot be made at first", failing)
    Sc(ctx, "cache", f).run("how connections are configured", lambda it: _configured(it, cls))
    _routes(ctx, cls)
    _caller(ctx)


def snap(it, r):
    return tuple(it.fz(it.attr(r, n)) for n in ("_mapping", "_local_mapping", "_proxy_config")) + (tuple(sorted(map(str, it.iterate(it.attr(r, "_curr_external_addresses"))))),)


def _configured(it, cls):
    """a new connection is made with the communication settings of the router, whichever pool brought them"""
    Threads(it)
    opened, conf = [], []
    tp = types(it, opened)
    for kind in ("far", "other"):
        t = tp(it, [kind + ":1"], [])
        good = t.methods["connect"]

        def connect(it, a, k, good=good):
            conf.append((a[0], dict(k).get("config"), dict(k).get("local_address")))
            return good(it, a, k)
        t.methods["connect"] = connect
        t.methods["parse_config"] = lambda it, a, k, kind=kind: dget(a[0], kind) if a and isinstance(a[0], Dct) else None
    own = {"none": None}.get(x := outcome(it, "address of the router", "own:1", "none"), x)
    first = outcome(it, "settings of the router", "", "far", "other")
    second = outcome(it, "settings of an added router", "", "far", "other")
    mk = lambda ext, kind: it.call(cls, [Seq("list", ext), None], [("comm_config", Dct([(kind, Dct([("n", kind + str(len(ext)))]))]) if kind else None)])
    r = mk([own] if own else [], first)
    if outcome(it, "another router", "none", "added") == "added":
        it.call(it.attr(r, "add_router"), [mk(["o:1", "o:2", "o:3"], second)], [])
        own = own or "o:1"
    else:
        second = None
    for kind in ("far", "other"):
        want = kind + "3" if second == kind else (kind + ("1" if own and own != "o:1" else "0") if first == kind else None)
        for via in (False, True):
            kw = [("from_who", T("u", via))]
            conf.clear()
            if via:
                it.await_(it.call(it.attr(r, "get_client_via_type"), [kind + ":1", tp(it, [kind + ":1"], [])], kw))
            else:
                it.await_(it.call(it.attr(r, "get_client"), [kind + ":1"], kw))
            it.claim(len(conf) == 1, "one request makes several connections")
            got = conf[0][1]
            it.claim((dget(got, "n") if isinstance(got, Dct) and got.items else None) == want, "a connection is not made with the settings configured for its transport")
            it.claim(conf[0][2] == own, "a connection is not made in the name of the router's own address")


def _routes(ctx, cls):
    f = ctx.method(cls, "remove_router")

    def algebra(it):
        Threads(it)
        L = lambda *a: Seq("list", list(a))
        base = mk_router(it, L("o:1"), "dummy:0", Dct([("o:1", "unix:o")]), proxy_config=Dct([("z", "z:1")]))
        a = mk_router(it, L("a:1", "a:2"), "dummy:a", Dct([("a:1", "unix:a1"), ("a:3", "unix:a3")]), proxy_config=Dct([("a:9", "pa:1")]))
        b = mk_router(it, L("b:1"), "dummy:b", Dct([("b:1", "unix:b1")]), proxy_config=Dct([("b:9", "pb:1")]))
        s0, sa, sb = snap(it, base), snap(it, a), snap(it, b)
        add = lambda r: it.call(it.attr(base, "add_router"), [r], [])
        rem = lambda r: it.call(it.attr(base, "remove_router"), [r], [])
        inner = lambda r, x: it.call(it.attr(r, "get_internal_address"), [x], [])
        proxy = lambda r, x: it.call(it.attr(r, "get_proxy"), [x], [])
        add(a)
        it.claim(inner(base, "a:1") == "dummy:a" and inner(base, "a:2") == "dummy:a" and inner(base, "a:3") == "unix:a3" and inner(base, "o:1") == "dummy:0", "a pool added to the routes cannot be reached over them")
        it.claim(proxy(base, "a:9") == "pa:1", "the proxies of a pool added to the routes are missing")
        order = outcome(it, "then", "first leaves", "both, first leaves", "both, both leave")
        if order != "first leaves":
            add(b)
        rem(a)
        for x in ("a:1", "a:2", "a:3"):
            it.claim(inner(base, x) is None, "a route of a pool that was removed stays")
        it.claim(proxy(base, "a:9") is None, "a proxy of a pool that was removed stays")
        it.claim(inner(base, "o:1") == "dummy:0" and proxy(base, "z") == "z:1", "removing the routes of a pool removes those of another")
        if order != "first leaves":
            it.claim(inner(base, "b:1") == "dummy:b" and proxy(base, "b:9") == "pb:1", "removing the routes of a pool removes those of another")
        if order == "both, both leave":
            rem(b)
        if order != "both, first leaves":
            it.claim(snap(it, base) == s0, "adding the routes of a pool and removing them leaves something behind")
        it.claim(snap(it, a) == sa and snap(it, b) == sb, "adding or removing a pool's routes changes the pool's own")
        st, _ = attempt(it, lambda: rem(a))
        it.claim(st == "ok", "removing the routes of a pool twice fails")
    Sc(ctx, "routes", f).run("adding and removing the routes of pools", algebra)

    ind = indigen(ctx)
    fr = ctx.method(ind, "remove_sub_pool")

    def removed(it):
        w = Group(it, ind)
        it.stubs["MainActorPoolBase.stop_sub_pool"] = lambda it, a, k: Coro(lambda: None, "stop_sub_pool")
        inner = lambda r, x: it.call(it.attr(r, "get_internal_address"), [x], [])
        it.claim(inner(w.g, SUB1) is not None, "the process's routes do not lead to a sub pool")
        st, _ = attempt(it, lambda: it.await_(it.call(it.attr(w.p, "remove_sub_pool"), [SUB1], [])))
        it.claim(st == "ok", "removing a sub pool fails")
        it.claim(inner(w.g, SUB1) is None and inner(it.attr(w.p, "_router"), SUB1) is None, "the route to a removed sub pool stays")
        it.claim(inner(w.g, SUB2) is not None and inner(w.g, MAIN) is not None, "removing a sub pool removes the routes of others")
    Sc(ctx, "routes", fr).run("removing a sub pool", removed)


def reaches(v, x, seen=None):
    """does what v uses lead to x?"""
    seen = seen if seen is not None else set()
    if v is x:
        return True
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, Clo):
        names = {n.id for n in ast.walk(v.func.node) if isinstance(n, ast.Name)}
        out, env = [], v.env
        while env is not None:
            out += [env.loc[n] for n in names if n in (env.loc or {})]
            env = env.up
    elif isinstance(v, Obj):
        out = list(v.attrs.values())
    elif isinstance(v, Bound):
        out = [v.self]
    elif isinstance(v, Part):
        out = [v.func] + v.args + [y for _, y in v.kw]
    elif isinstance(v, Seq):
        out = list(v.parts)
    elif isinstance(v, Dct):
        out = [y for kv in items_of(v) for y in kv]
    else:
        out = []
    return any(reaches(y, x, seen) for y in out)


def _caller(ctx):
    m = ctx.prog.module("backends.core").defs
    cls = m["ActorCaller"]
    f = ctx.method(cls, "__getattr__")

    def threads(it):
        th = Threads(it)
        made = []

        def init(it, a, k):
            o = a[0]
            made.append((th.cur, o))
            it.setattr(o, "who", f"caller {len(made)}")
        it.stubs["ActorCallerThreadLocal.__init__"] = init
        it.stubs["weakref.finalize"] = lambda it, a, k: Stub("finalizer")
        o = it.call(cls, [], [])
        a = it.attr(o, "who")
        b = it.attr(o, "who")
        th.cur = "t2"
        c = it.attr(o, "who")
        th.cur = "t1"
        d = it.attr(o, "who")
        it.claim(a == b == d, "a thread does not keep its connections")
        it.claim(c != a, "two threads share their connections")
    Sc(ctx, "thread", f).run("callers of two threads", threads)

    def ended(it):
        th = Threads(it)
        watched, made, loops, started, given, at_exit = [], [], [], [], [], []

        def init(it, a, k):
            made.append(a[0])
            it.setattr(a[0], "who", len(made))

        def stop(it, a, k):
            return Coro(lambda: given.append(("stopped", a[0])), "stop")

        def finalize(it, a, k):
            watched.append(a)
            return Stub("finalizer")

        def loop(it, a, k):
            it.claim(not loops, "connections of ended threads are closed by several loops")
            st = {"running": False}
            lp = Stub("closing loop", {}, {"is_running": lambda it, a, k: st["running"], "stop": lambda it, a, k: given.append(("halt", lp)),
                      "run_forever": lambda it, a, k: given.append(("runs", lp)), "run_until_complete": lambda it, a, k: it.await_(a[0]),
                      "call_soon_threadsafe": lambda it, a, k: given.append(("soon", a)), "call_exception_handler": lambda it, a, k: None})
            lp.st = st
            loops.append(lp)
            return lp

        def thread(it, a, k):
            t = Stub("closing thread", {"kw": dict(k), "daemon": dict(k).get("daemon", False)}, {"start": lambda it, a, k: started.append(t), "join": lambda it, a, k: None, "is_alive": lambda it, a, k: True})
            return t

        def submit(it, a, k):
            given.append(("submitted", a[0], a[1]))
            return Stub("future")
        it.stubs.update({"ActorCallerThreadLocal.__init__": init, "ActorCallerThreadLocal.stop": stop, "weakref.finalize": finalize, "asyncio.new_event_loop": loop,
                         "threading.Thread": thread, "asyncio.run_coroutine_threadsafe": submit, "atexit.register": lambda it, a, k: at_exit.append(a)})
        o = it.call(cls, [], [])
        n = outcome(it, "threads", 1, 2)
        for x in range(n):
            th.cur = f"t{x}"
            it.attr(o, "who")
            it.attr(o, "who")
        it.claim(len(watched) == n and not given, "the connections of a thread are not closed exactly once when the thread ends")
        if len(watched) != n:
            return
        order = list(range(n)) if outcome(it, "ended first", "first", "last") == "first" else list(range(n))[::-1]
        for x in order:
            w = watched[x]
            it.claim(any(w[0] is v for v in th.stores[-1].get(f"t{x}", {}).values()), "the end of a thread is not noticed: what is watched does not live in the thread's own store")
            it.claim(not reaches(w[1], w[0]) and not any(reaches(y, w[0]) for y in w[2:]) and w[0] is not made[x], "the end of a thread is never noticed: its own clean-up keeps what is watched")
            th.cur = "collector"
            del given[:]
            it.call(w[1], w[2:], [])
            sub = [g for g in given if g[0] == "submitted"]
            it.claim(len(sub) == 1 and len(given) == 1, "the connections of an ended thread are not closed exactly once")
            if len(sub) != 1:
                return
            it.claim(bool(loops) and sub[0][2] is loops[0], "the connections of an ended thread are closed on a loop that does not run")
            it.claim(len(started) == 1 and it.truth(started[0].attrs["daemon"]), "the loop that closes connections is not run by one thread that ends with the process")
            it.await_(sub[0][1])
            it.claim(given[-1] == ("stopped", made[x]), "the connections of another thread are closed")
        if not started:
            return
        kw = started[0].attrs["kw"]
        t1, t2 = it.spawn(Coro(lambda: nap(it, 50), "left"), "left"), it.spawn(Coro(lambda: None, "finished"), "finished")
        it.pause()
        it.stubs["asyncio.all_tasks"] = lambda it, a, k: Seq("set", [t for t in (t1, t2) if not t.done])
        del given[:]
        now = it.now
        it.call(kw["target"], it.parts_of(kw["args"]) if "args" in kw else [], [])
        it.claim(("runs", loops[0]) in given, "the loop that closes connections does not run")
        it.drain()
        it.claim(t1.done and it.now < now + 10, "what the closing loop still does is not ended when it stops")
        loops[0].st["running"] = outcome(it, "closing loop", True, False)
        del given[:]
        for a in at_exit:
            st, _ = attempt(it, lambda: it.call(a[0], a[1:], []))
            it.claim(st == "ok", "ending the process fails")
        it.claim(len(at_exit) == 1 and [g[0] for g in given] == (["soon"] if loops[0].st["running"] else []), "the closing loop is not stopped when the process ends")
    Sc(ctx, "exit", f).run("the end of a thread", ended)

    tl = m["ActorCallerThreadLocal"]
    fl = ctx.method(tl, "_listen_client")

    def listen(it):
        o = Obj(tl, {"_clients": Dct(), "_client_to_message_futures": Dct(), "_profiling_data": Stub("profiling")})
        started = []
        it.stubs["ActorCallerThreadLocal._listen"] = lambda it, a, k: (started.append(a[1]), Coro(lambda: None, "listen"))[1]
        c1, c2 = Stub("c1", {"closed": False}), Stub("c2", {"closed": False})
        which = outcome(it, "connections obtained", "one twice", "two")
        seq = [c1, c1] if which == "one twice" else [c1, c2]
        todo = list(seq)
        api = outcome(it, "obtained by", "get_client", "get_client_via_type")
        rt = Stub("router", {}, {n: (lambda it, a, k: Coro(lambda: todo.pop(0), "get")) for n in ("get_client", "get_client_via_type")})
        for n, c in enumerate(seq):
            v = it.await_(it.call(it.attr(o, api), [rt, "far:1"] + ([T("type")] if api == "get_client_via_type" else []), []))
            it.claim(v is c, "another connection is given out than the router's")
            if n == 0:
                fut = Stub("waiting call")
                it.setitem(dget(it.attr(o, "_client_to_message_futures"), c1), T("mid"), fut)
        it.drain()
        it.claim(started == list(dict.fromkeys(seq)) if len(set(map(id, seq))) == len(set(map(id, started))) else False, "a connection does not have exactly one reader")
        got = dget(dget(it.attr(o, "_client_to_message_futures"), c1), T("mid"))
        it.claim(got is fut, "the calls waiting on a connection are forgotten when it is obtained again")
    Sc(ctx, "reader", fl).run("readers of connections", listen)

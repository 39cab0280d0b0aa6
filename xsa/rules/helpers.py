"""C36: retries, listening addresses, free ports, sizes and lazily imported modules, by abstract interpretation of the helpers
over every history of what they use."""
from .records import *
from .contexts import V
from .stopping import nap

LOW, HIGH = 10000, 10005


def helpers(ctx: Ctx):
    m = ctx.prog.module("utils")
    _retry(ctx, m)
    _zero(ctx, m)
    _ports(ctx, m)
    _sizes(ctx, m)
    _lazy(ctx, m)


def _retry(ctx, m):
    f = m.defs["retry_callable"]

    def go(it):
        kind = outcome(it, "what is retried", "function", "coroutine function", "function returning an awaitable")
        most = outcome(it, "retries", -1, 1, 3)
        ends, waits, got = [], [], []

        def attempt_():
            e = outcome(it, f"attempt {len(ends)}", *(("ValueError", "value", "KeyError", "CancelledError", "none") if len(ends) < 3 else ("value",)))
            ends.append(e)
            if e not in ("value", "none"):
                it.raise_(e, f"attempt {len(ends)}")
            return V("value") if e == "value" else None
        vals = []

        def run(it, a, k):
            got.append((list(a), list(k)))
            if kind == "function":
                v = attempt_()
                vals.append(v)
                return v

            def co():
                it.pause()
                v = attempt_()
                vals.append(v)
                return v
            return Coro(co, "attempt")
        fn = Native(run, "retried")
        it.stubs["inspect.iscoroutinefunction"] = it.stubs["asyncio.iscoroutinefunction"] = lambda it, a, k: kind == "coroutine function"
        it.stubs["functools.wraps"] = lambda it, a, k: Native(lambda it, b, kk: b[0], "wraps")
        it.stubs["time.sleep"] = lambda it, a, k: waits.append(("blocking", a[0]))

        def sleep(it, a, k):
            def co():
                waits.append(("loop", a[0]))
                it.pause()
            return Coro(co, "sleep")
        it.stubs["asyncio.sleep"] = sleep
        kw = [("ex_type", ("builtin", "ValueError")), ("wait_interval", 5), ("max_retries", most)] + ([("sync", False)] if kind == "function returning an awaitable" else [])
        w = it.call(f, [fn], kw)
        args, kws = [V("one")], [("x", V("x"))]
        st, v = attempt(it, lambda: it.call(w, args, kws) if kind == "function" else it.await_(it.call(w, args, kws)))
        it.claim(all(a == args and k == kws for a, k in got), "an attempt is made with other arguments")
        n = len(ends)
        it.claim(all(e == "ValueError" for e in ends[:-1]) and n >= 1, "another error than the ones named is retried, or a success")
        it.claim(most < 0 or n <= most, "more attempts are made than allowed")
        last = ends[-1] if ends else None
        if last in ("value", "none"):
            it.claim(st == "ok" and v is vals[-1], "the result of the attempt that succeeded is lost")
        else:
            it.claim(last != "ValueError" or n == most, "attempts end too early")
            it.claim(st == "raise" and err_is(it, v, last), "an attempt that failed for good is not reported with its error")
        it.claim(len(waits) >= n - 1 and all(x == ("blocking" if kind == "function" else "loop", 5) for x in waits), "attempts do not wait the given time between them")
    Sc(ctx, "retry", f).run("attempts", go, max_paths=2000)


def _zero(ctx, m):
    f = m.defs["fix_all_zero_ip"]
    ZERO = {"0.0.0.0": True, ":": True, "0:0:0:0:0:0:0:0": True, "::0": True, "10.0.0.1": False, "fe80::1": False, "::1": False, "0:0:0:0:0:0:0:1": False, "localhost": False, "10.0.0.0": False}

    def go(it):
        host = outcome(it, "remote host", *ZERO)
        scheme = outcome(it, "remote scheme", "", "ucx://")
        chost = outcome(it, "host connected to", "10.0.0.2", "fe80::2", "0.0.0.0", ":", "name")
        cs = outcome(it, "scheme connected to", "", "ucx://")
        same = outcome(it, "port", "same", "another")
        remote, conn = f"{scheme}{host}:{12345}", f"{cs}{chost}:{12345 if same == 'same' else 5}"
        want = remote if not ZERO[host] or ZERO.get(chost) else f"{cs}{chost}:12345"
        st, v = attempt(it, lambda: it.call(f, [remote, conn], []))
        it.claim(st == "ok" and v == want, "the address of an actor of a pool that listens on all interfaces is not the one it is reached at, or another address is changed")
    Sc(ctx, "address", f).run("addresses of pools that listen on all interfaces", go, max_paths=1000)

    z = m.defs["is_zero_ip"]

    def zero(it):
        host, sch = outcome(it, "host", *ZERO), outcome(it, "scheme", "", "ucx://")
        st, v = attempt(it, lambda: it.call(z, [f"{sch}{host}:0"], []))
        it.claim(st == "ok" and it.truth(v) == ZERO[host], "an address that names all interfaces is taken for one that can be reached, or another for one that cannot")
    Sc(ctx, "address", z).run("addresses of all interfaces", zero, max_paths=100)


def _ports(ctx, m):
    f = m.defs["get_next_port"]

    def go(it):
        it.mods[(m.name, "LOW_PORT_BOUND")], it.mods[(m.name, "HIGH_PORT_BOUND")] = LOW, HIGH
        mine = Seq("set", [LOW + 1] if outcome(it, "given out before", False, True) else [])
        it.mods[(m.name, "_local_occupied_ports")] = mine
        it.exts["sys.platform"] = outcome(it, "platform", "linux", "win32")
        it.exts["os.linesep"] = "\n"
        used = {"none": [], "some": [LOW, LOW + 3], "others": [LOW - 1, HIGH + 1, 80], "all but one": [LOW, LOW + 2, LOW + 3, LOW + 4, HIGH]}[outcome(it, "ports in use", "none", "some", "others", "all but one")]
        denied = outcome(it, "connections", "listed", "refused") if it.exts["sys.platform"] == "linux" else "netstat"
        killed = []

        def conns(it, a, k):
            if denied == "refused":
                it.raise_("AccessDenied")
            return Seq("list", [Stub(f"connection {p}", {"type": 1, "laddr": Stub("laddr", {"port": p})}) for p in used] + [Stub("udp", {"type": 2, "laddr": Stub("laddr", {"port": LOW + 5})})])
        it.stubs["psutil.net_connections"] = conns
        it.exts["psutil.AccessDenied"] = ("ext", "AccessDenied")
        it.exts["socket.SOCK_STREAM"] = 1
        text = "Proto Local Foreign State\n" + "".join(f"tcp 0 0 10.0.0.1:{p} 1.2.3.4:99 X\n" for p in used) + "tcp 0 0 0.0.0.0:* 1.2.3.4:7 X\nheader\n"
        slow = [outcome(it, "netstat", "answers", "slow once")] if denied != "listed" else ["answers"]

        def popen(it, a, k):
            def comm(it, b, kk):
                if slow[0] != "answers":
                    slow[0] = "answers"
                    it.raise_("TimeoutExpired")
                return Seq("tuple", [text.encode(), None])
            return Stub("netstat", {}, {"communicate": comm, "kill": lambda it, b, kk: killed.append(1)})
        it.stubs["subprocess.Popen"] = popen
        it.exts["subprocess.TimeoutExpired"] = ("ext", "TimeoutExpired")
        it.exts["subprocess.PIPE"] = -1
        it.stubs["random.seed"] = lambda it, a, k: None
        it.stubs["uuid.uuid1"] = lambda it, a, k: Stub("uuid", {"bytes": b"x"})
        free = [p for p in range(LOW, HIGH + 1) if p not in used and p not in mine.parts]
        if not free:
            return
        n = outcome(it, "draw", 0, 1, 5, 99999999)
        it.stubs["random.randint"] = lambda it, a, k: n
        occupy = outcome(it, "reserved", True, False)
        typ = outcome(it, "kind", None, 1) if denied == "listed" else None
        kw = ([("typ", typ)] if typ else []) + ([] if occupy else [("occupy", False)])
        st, v = attempt(it, lambda: it.call(f, [], kw))
        it.claim(st == "ok" and v in free, "a port is given out that is in use, was given out before or is none of the ports to choose from")
        st, w = attempt(it, lambda: it.call(f, [], kw)) if len(free) > 1 else ("ok", None)
        it.claim(st == "ok" and (w != v if occupy else w == v or w is None), "a reserved port is given out again, or one that is not reserved is kept")
    Sc(ctx, "port", f).run("choosing a port", go, max_paths=4000)


def _sizes(ctx, m):
    f = m.defs["parse_readable_size"]
    CASES = {"1": (1.0, False), "1k": (1024.0, False), "1.5K": (1536.0, False), " 2 MB": (2.0 * 1024 ** 2, False), "3gib": (3.0 * 1024 ** 3, False), "1T": (1024.0 ** 4, False),
             "20%": (0.2, True), "20 %": (0.2, True), "12 MiB ": (12.0 * 1024 ** 2, False), "x": None, "1x": None, "": None, "1.2.3m": None}

    def go(it):
        c = outcome(it, "size", *CASES, 7, 2.5)
        st, v = attempt(it, lambda: it.call(f, [c], []))
        want = (float(c), False) if not isinstance(c, str) else CASES[c]
        if want is None:
            it.claim(st == "raise" and err_is(it, v, "ValueError"), "something that is no size is accepted")
        else:
            it.claim(st == "ok" and isinstance(v, Seq) and list(v.parts) == list(want), "a size is read as another number")
    Sc(ctx, "size", f).run("sizes", go)


def _lazy(ctx, m):
    f = m.defs["lazy_import"]

    def go(it):
        found = outcome(it, "module", "there", "not there")
        ph = outcome(it, "placeholder", True, False)
        rename = outcome(it, "renamed", None, "pc")
        where = outcome(it, "names", "globals", "locals")
        events = []
        real = Stub("real module", {"thing": V("thing"), "other": V("other")}, default=lambda it, n: it.raise_("AttributeError", n))

        def load(it, a, k):
            events.append("imported " + a[0])
            return real
        it.stubs["importlib.import_module"] = load

        def find(it, a, k):
            it.claim(a[0] == "pkg", "another module is looked for")
            return Stub("spec") if found == "there" else None
        it.stubs["find_spec"] = it.stubs["importlib.util.find_spec"] = it.stubs["importlib_utils.find_spec"] = find
        name = rename or "pkg.mod"
        g, loc = Dct([(name, "old")] if where == "globals" else [("unrelated", 1)]), Dct()
        kw = [("globals", g)] + ([("locals", loc)] if where == "locals" else []) + ([("rename", rename)] if rename else []) + ([("placeholder", True)] if ph else [])
        lm = it.call(f, ["pkg.mod"], kw)
        it.claim(not events, "a lazy module is imported at once")
        hook = Native(lambda it, a, k: events.append("loaded"), "hook")
        r = it.call(it.call(m.defs["lazy_import_on_load"], [lm], []), [hook], []) if found == "there" or not ph else hook
        it.claim(r is hook, "a function called on load is replaced")
        if found != "there":
            if not ph:
                it.claim(lm is None, "a missing module is not reported as missing")
                return
            for what in ("attribute", "call"):
                st, v = attempt(it, lambda: it.attr(lm, "thing") if what == "attribute" else it.call(lm, [], []))
                it.claim(st == "raise" and err_is(it, v, "AttributeError"), "a missing module can be used")
            return
        st, v = attempt(it, lambda: it.attr(lm, "_pytestfixture"))
        it.claim(st == "raise" and err_is(it, v, "AttributeError") and not events, "a lazy module is imported by looking at it")
        st, v = attempt(it, lambda: it.attr(lm, "nothing"))
        it.claim(st == "raise" and err_is(it, v, "AttributeError"), "an attribute that a module does not have is given")
        del events[:]
        st, v = attempt(it, lambda: it.attr(lm, "thing"))
        it.claim(st == "ok" and v is real.attrs["thing"] and events == ["imported pkg.mod", "loaded"], "an attribute of a lazy module is another one, or its functions are not called after it was loaded")
        it.claim(dget(g if where == "globals" else loc, name) is real, "the name of a lazy module does not lead to the module once it is loaded")
        it.claim(where == "globals" or dget(g, name) is None, "loading a module sets a name elsewhere")
        del events[:]
        st, v = attempt(it, lambda: it.attr(lm, "other"))
        it.claim(st == "ok" and v is real.attrs["other"] and "loaded" not in events, "the functions called on load are called again")
    Sc(ctx, "lazy", f).run("lazily imported modules", go)

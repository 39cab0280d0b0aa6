"""Abstract environment of the pools for machine scenarios: addresses, actor classes and ids are symbols,
everything outside the pool (other pools, processes, transports) is a nondeterministic stub."""
from .machine import Coro, Dct, Event, Exc, Machine, Native, Obj, Raised, Seq, Stub, T, run_scenarios, sym  # noqa: F401
from .shapes import freeze  # noqa: F401

MAIN, SUB1, SUB2 = "main:0", "sub:1", "sub:2"


def base_stubs(it):
    none = lambda it, a, k: None  # noqa: E731
    for n in ("register_asyncio_task_timeout_detector", "init_metrics", "register_local_pool", "core._get_local_actor",
              "debug.detect_cycle_send"):
        it.stubs[n] = none
    it.stubs["os.getpid"] = lambda it, a, k: 4711
    it.stubs["core.create_local_actor_ref"] = none
    n = [0]

    def mid(it, a, k):
        n[0] += 1
        return T("msgid", n[0])
    it.stubs["message.new_message_id"] = mid

    def timeouts(it, a, k):
        return Stub("nullcontext", methods={"__enter__": none, "__exit__": none, "__aenter__": none, "__aexit__": none})
    it.stubs["debug.debug_async_timeout"] = timeouts
    it.stubs["debug.record_message_trace"] = timeouts
    return it


def config(it, addrs=(MAIN, SUB1, SUB2), labels=None):
    cls = it.prog.module("backends.config").defs["ActorPoolConfig"]
    c = it.call(cls, [], [])
    for i, a in enumerate(addrs):
        it.call(it.attr(c, "add_pool_conf"), [100 + i, labels[i] if labels else None, f"int:{i}", a], [])
    return c


def router(it):
    return Stub("router", methods={"get_proxies": lambda it, a, k: T("proxies", it.fz(a[0])), "set_mapping": lambda it, a, k: None})


def pool(it, cls, addr=MAIN, cfg=None, index=100, **kw):
    cfg = cfg or config(it)
    args = dict(process_index=index, label=None, external_address=addr, internal_address="int:" + addr, env=None, router=router(it), config=cfg, servers=Seq("list", []))
    args.update(kw)
    it.stubs["backends.core.ActorCaller"] = lambda it, a, k: Stub("caller", methods={"stop": lambda it, a, k: Coro(lambda: None, "stop")})
    return it.call(cls, [], list(args.items()))


def actor_class(it, name="Act", ctor=None, post=None, pre=None, receive=None):
    """A user's actor class: construction and hooks are nondeterministic."""
    made = []

    def new(it, a, k):
        if ctor:
            ctor(it, a, k)
        o = Stub(f"actor{len(made)}", {"uid": None, "address": None}, kind="_BaseActor")
        o.args, o.kw = flat_args(it, a, k)
        o.methods["__post_create__"] = lambda it, a, k: Coro(lambda: post(it, o) if post else None, "post")
        o.methods["__pre_destroy__"] = lambda it, a, k: Coro(lambda: pre(it, o) if pre else None, "pre")
        o.methods["__on_receive__"] = lambda it, a, k: Coro(lambda: receive(it, o, a[0]) if receive else T("result", it.fz(a[0])), "receive")
        made.append(o)
        return o
    c = Native(new, name)
    c.made = made
    return c


def message(it, name, **kw):
    cls = it.prog.module("backends.message").defs[name]
    return it.call(cls, [], list(kw.items()))


def ref(it, addr, uid, proxies=None):
    cls = it.prog.module("core").defs["ActorRef"]
    return Obj(cls, {"address": addr, "uid": uid, "proxy_addresses": proxies, "_methods": Dct()})


def cname(v):
    return v.cls.name if isinstance(v, Obj) else (v.name if isinstance(v, Exc) else None)


def flat_args(it, a, k):
    """positional and keyword arguments with splats expanded"""
    from .machine import unkey
    from .shapes import Splice
    pos = []
    for x in a:
        if isinstance(x, Splice):
            pos.append(x)
        else:
            pos.append(x)
    kw = []
    for n, v in k:
        if n is None and isinstance(v, Dct):
            kw += [(unkey(x), y) for x, y in v.items.items()]
        else:
            kw.append((n, v))
    return pos, kw

"""C01: every request is answered exactly once, under its own id and on its own connection, by abstract interpretation of
the connection loop of a pool with every kind of request, handler outcome and send failure."""
from .records import *
from .answers import nap

HAND = ("value", "ValueError", "CancelledError", "KeyboardInterrupt")


def register(it, cls):
    d = it.prog.module("backends.pool").defs.get("_register_message_handler")
    if d is not None:
        it.call(d, [cls], [])


class Conn:
    """A server side connection: the scenario queues what is received and chooses how sending the n-th reply ends."""

    def __init__(self, it, name="c", kind=None):
        self.it, self.q, self.sent, self.tried = it, [], [], []
        self.how = {}
        self.over = 0
        self.stub = Stub(name, {"closed": False, "local_address": "l", "dest_address": "d"}, {
            "recv": lambda it, a, k: Coro(self.recv, "recv"), "send": lambda it, a, k: Coro(lambda: self.send(a[0]), "send"), "close": lambda it, a, k: Coro(self.close, "close"),
            "recv_buffers": lambda it, a, k: Coro(self.bufs, "recv_buffers")}, kind=kind)

    def recv(self):
        it = self.it
        if not self.q and not self.stub.attrs["closed"]:
            it.block(lambda: bool(self.q) or self.stub.attrs["closed"])
        it.raise_injected()
        if not self.q:
            self.over += 1
            if self.over > 4:
                it.claim(False, "a connection that ended is read again and again")
                it.block(lambda: False)
            it.raise_("EOFError")
        v = self.q.pop(0)
        return v() if callable(v) else v

    def send(self, m):
        it = self.it
        o = self.how.get(len(self.tried), self.how.get("else", "ok"))
        self.tried.append(m)
        it.pause()
        if o != "ok":
            it.raise_(o)
        self.sent.append(m)

    def close(self):
        self.stub.attrs["closed"] = True
        self.it.pause()

    def bufs(self):
        o = outcome(self.it, "reading the data", *HAND[:2])
        self.it.pause()
        if o != "value":
            self.it.raise_(o)


def world(it, kind, cls):
    """(pool, actors, gate): actor A lives in the pool, B on the first sub pool (main pool only)"""
    state = {"user": None}

    def receive(it, o, m):
        u = state["user"]
        return u() if u else T("answer")
    act = actor_class(it, receive=receive, ctor=lambda it, a, k: state.get("ctor", lambda: None)())
    if kind == "main":
        w = World(it, cls)
        p = w.p
        w.act = act
    else:
        p = make(it, kind, cls)
        w = None
        plain_remote(it)
    home = MAIN if kind == "main" else SUB1
    actors(p).items.clear() if w is None else None
    if w is None:
        ask(it, p, "create_actor", create_msg(it, act, A, home))
    else:
        for u, v in items_of(actors(p)):
            v.methods["__on_receive__"] = lambda it, a, k: Coro(lambda: receive(it, v, a[0]), "receive")
    register(it, cls)
    it.stubs["traceback.format_tb"] = lambda it, a, k: Seq("list", ["tb"])
    return p, w, act, state, home


def ctl(it, name, addr, **kw):
    ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], name)
    return full_id(it, "ControlMessage", address=addr, control_message_type=ct, **kw)


N = [0]


def full_id(it, cls, **kw):
    n = it.__dict__.setdefault("_req", [0])
    n[0] += 1
    return message(it, cls, message_id=T("req", n[0]), **kw)


def user_code(it, state, key="the method"):
    def run():
        o = outcome(it, key, *HAND)
        it.pause()
        if o == "value":
            return T("answer")
        it.raise_(o)
    return run


def serve(it, p, c):
    return it.spawn(it.call(it.attr(p, "on_new_channel"), [c.stub], []), "serve")


def replies_to(it, c, m):
    it.claim(all(is_reply(r) for r in c.sent), "something that is no reply is sent")
    return [r for r in c.sent if is_reply(r) and it.fz(r.attrs.get("message_id")) == it.fz(m.attrs.get("message_id"))]


def is_reply(r):
    return is_msg(r, "ResultMessage") or is_msg(r, "ErrorMessage")


def one(it, c, m, what):
    rs = replies_to(it, c, m)
    it.claim(len(rs) > 0, f"{what} is not answered")
    it.claim(len(rs) < 2, f"{what} is answered more than once")
    it.claim(all(is_reply(r) for r in rs), f"{what} is not answered with a result or an error")
    it.claim(all(r.attrs.get("error") is not None for r in rs if is_msg(r, "ErrorMessage")), f"{what} is answered with an error reply that carries no error")
    return rs[0] if rs else None


def replies(ctx: Ctx):
    for kind, cls in (("main", main_pool(ctx)), ("sub", sub_pool(ctx))):
        _kinds(ctx, kind, cls)
        _sending(ctx, kind, cls)
        _loop(ctx, kind, cls)
    _ucx(ctx, sub_pool(ctx))


def requests(it, kind, act, home):
    """name -> (message, expected: result/error/None) of every kind of request"""
    ref_ = lambda c, uid, addr=home, **kw: full_id(it, c, actor_ref=ref(it, addr, uid), **kw)  # noqa: E731
    out = {
        "create_actor": lambda: (full_id(it, "CreateActorMessage", actor_cls=act, actor_id=C, args=Seq("tuple", []), kwargs=Dct([]), allocate_strategy=strategy(it, home)), None),
        "create_actor of a taken id": lambda: (full_id(it, "CreateActorMessage", actor_cls=act, actor_id=A, args=Seq("tuple", []), kwargs=Dct([]), allocate_strategy=strategy(it, home)), "error"),
        "destroy_actor": lambda: (ref_("DestroyActorMessage", A), "result" if kind == "main" else None),
        "destroy_actor of an unknown actor": lambda: (ref_("DestroyActorMessage", C), "error"),
        "has_actor": lambda: (ref_("HasActorMessage", A), "result"),
        "has_actor of an unknown actor": lambda: (ref_("HasActorMessage", C), "result"),
        "actor_ref": lambda: (ref_("ActorRefMessage", A), "result"),
        "actor_ref of an unknown actor": lambda: (ref_("ActorRefMessage", C), None),
        "send": lambda: (ref_("SendMessage", A, content=T("c")), "user"),
        "send to an unknown actor": lambda: (ref_("SendMessage", C, content=T("c")), "error"),
        "tell": lambda: (ref_("TellMessage", A, content=T("c")), "result"),
        "tell to an unknown actor": lambda: (ref_("TellMessage", C, content=T("c")), "error"),
        "cancel of an unknown call": lambda: (full_id(it, "CancelMessage", address=home, cancel_message_id=T("nobody")), "error"),
        "forward": lambda: (message(it, "ForwardMessage", message_id=T("req", "fwd"), address=SUB2, raw_message=message(it, "SendMessage", message_id=T("req", "fwd"), actor_ref=ref(it, SUB2, A), content=T("c"))), None),
        "control stop": lambda: (ctl(it, "stop", home, content=Seq("tuple", [5, False])), "result"),
        "control sync_config": lambda: (ctl(it, "sync_config", home, content=config(it)), "result"),
        "control get_config": lambda: (ctl(it, "get_config", home, content=None), "result"),
        "control get_config of the main pool": lambda: (ctl(it, "get_config", home, content="main_pool_address"), None),
        "control wait_pool_recovered": lambda: (ctl(it, "wait_pool_recovered", home, content=SUB2), None),
        "control of an unknown kind": lambda: (ctl(it, "restart", home, content=None), None),
        "copy_to_buffers": lambda: (full_id(it, "CopyToBuffersMessage", content=Seq("list", [Seq("tuple", [home, "b", 0, 4, T("data")])])), None),
        "copy_to_fileobjs": lambda: (full_id(it, "CopyToFileObjectsMessage", content=Seq("list", [Seq("tuple", [home, "f", T("data")])])), None),
    }
    if kind == "main":
        out.update({
            "destroy_actor on a sub pool": lambda: (ref_("DestroyActorMessage", B, SUB1), None),
            "actor_ref on a sub pool": lambda: (ref_("ActorRefMessage", B), None),
            "has_actor on a sub pool": lambda: (ref_("HasActorMessage", B, SUB1), None),
            "send on a sub pool": lambda: (ref_("SendMessage", B, content=T("c")), None),
            "tell on a sub pool": lambda: (ref_("TellMessage", B, content=T("c")), None),
            "cancel on a sub pool": lambda: (full_id(it, "CancelMessage", address=SUB1, cancel_message_id=T("x")), None),
            "control for a sub pool": lambda: (ctl(it, "get_config", SUB1, content=None), None),
            "control add_sub_pool_actor": lambda: (ctl(it, "add_sub_pool_actor", home, content=Seq("tuple", [SUB1, strategy(it, SUB1), full_id(it, "CreateActorMessage", actor_cls=act, actor_id=C, args=Seq("tuple", []), kwargs=Dct([]), allocate_strategy=strategy(it, SUB1))])), None),
            "create_actor on a sub pool": lambda: (full_id(it, "CreateActorMessage", actor_cls=act, actor_id=C, args=Seq("tuple", []), kwargs=Dct([]), allocate_strategy=strategy(it, SUB1)), None),
        })
    return out


def _kinds(ctx, kind, cls):
    f = ctx.method(cls, "on_new_channel")
    run = Sc(ctx, "one-reply", f).run

    def go(it, name):
        p, w, act, state, home = world(it, kind, cls)
        it.stubs["AbstractActorPool._sync_pool_config"] = lambda it, a, k: None
        it.stubs["stop"] = lambda it, a, k: Coro(lambda: None, "stop")
        it.stubs["stop_sub_pools"] = lambda it, a, k: Coro(lambda: None, "stop")

        def buf(it, a, k):
            if outcome(it, "the buffer", "known", "KeyError") != "known":
                it.raise_("KeyError")
            return Stub("buffer", methods={"__setitem__": lambda it, a, k: None})

        def fobj(it, a, k):
            if outcome(it, "the file", "known", "KeyError") != "known":
                it.raise_("KeyError")
            return Stub("file", methods={"write": lambda it, a, k: Coro(user_code(it, state, "write"), "write")})
        it.stubs["BufferRef.get_buffer"] = buf
        it.stubs["FileObjectRef.get_local_file_object"] = fobj
        m, want = requests(it, kind, act, home)[name]()
        it.fz(m)

        def script(addr, x):
            o = outcome(it, "the other pool", "answers", "fails", "ServerClosed")
            if o == "fails":
                return message(it, "ErrorMessage", message_id=x.attrs.get("message_id"), address=SUB1, pid=1, error_type=None, error=Exc("ValueError", ["x"]), traceback=None)
            if o != "answers":
                it.raise_("ServerClosed")
            if is_msg(x, "ActorRefMessage"):
                return message(it, "ResultMessage", message_id=x.attrs.get("message_id"), result=ref(it, SUB1, x.attrs["actor_ref"].attrs["uid"]))

        def remote(it, a, k):
            def r():
                v = script(a[1], a[2])
                it.pause()
                return v if v is not None else message(it, "ResultMessage", message_id=a[2].attrs.get("message_id"), result=T("remote"))
            return Coro(r, "call")
        it.stubs["AbstractActorPool.call"] = remote
        state["user"] = user_code(it, state)
        state["ctor"] = lambda: outcome(it, "constructor", "value", "ValueError") == "value" or it.raise_("ValueError")
        c, d = Conn(it), Conn(it, "d")
        serve(it, p, c)
        serve(it, p, d)
        c.q.append(m)
        nap(it, 300)
        r = one(it, c, m, f"a request ({name.split(' ')[0]})")
        it.claim(not d.sent, "a reply is sent on another connection")
        it.claim(len(c.sent) < 2, "a reply is sent that nobody asked for")
        if r is None:
            return
        err = is_msg(r, "ErrorMessage")
        if want == "user":
            o = it.outcomes[-1].split(": ")[1]
            it.claim(err == (o != "value"), f"a method that {'fails is answered with a result' if o != 'value' else 'succeeds is answered with an error'}")
            if err and o != "value":
                it.claim(err_is(it, r, o), "an error reply does not carry the error")
            elif not err:
                it.claim(freeze(r.attrs.get("result")) == T("answer"), "a reply does not carry the method's result")
        elif want is not None:
            it.claim(err == (want == "error"), f"{name} is answered with {'an error' if err else 'a result'}")
            if name.startswith("has_actor"):
                it.claim(r.attrs.get("result") is (name == "has_actor"), "has_actor answers wrongly")
        if name == "control get_config of the main pool":
            it.claim(not err and r.attrs.get("result") == MAIN, "a pool asked for the address of the main pool does not answer with it")
        elif name == "control get_config":
            v = r.attrs.get("result")
            it.claim(not err and getattr(getattr(v, "cls", None), "name", None) == "ActorPoolConfig", "a pool asked for its configuration does not answer with it")
        # the connection goes on being served
        m2 = full_id(it, "HasActorMessage", actor_ref=ref(it, home, T("other")))
        c.q.append(m2)
        nap(it, 5)
        if name != "control stop":
            one(it, c, m2, "a request after another one")
    for name in requests(None, kind, None, None):
        run(name, lambda it, name=name: go(it, name), max_paths=400)


def _sending(ctx, kind, cls):
    run = Sc(ctx, "reply-that-cannot-be-sent", ctx.method(cls, "_send_channel")).run

    def go(it):
        p, w, act, state, home = world(it, kind, cls)
        c = Conn(it)
        how = outcome(it, "sending the reply", "ok", "ValueError", "TypeError", "ValueError twice", "ConnectionResetError", "ChannelClosed", "BrokenPipeError")
        if how == "ValueError twice":
            c.how = {0: "ValueError", 1: "ValueError"}
        else:
            c.how = {0: how}
        state["user"] = user_code(it, state)
        serve(it, p, c)
        m = full_id(it, "SendMessage", actor_ref=ref(it, home, A), content=T("c"))
        c.q.append(m)
        nap(it, 5)
        if how in ("ok", "ValueError", "TypeError"):
            r = one(it, c, m, "a request")
            if r is not None and how != "ok":
                it.claim(is_msg(r, "ErrorMessage"), "a result that cannot be sent is not answered with an error")
                it.claim(err_is(it, r, "SendMessageFailed"), "a result that cannot be sent is answered with an error that does not say so")
        else:
            it.claim(len(replies_to(it, c, m)) < 2, "a request is answered more than once")
        if c.stub.attrs["closed"] and "ok" != how not in ("ValueError", "TypeError", "ValueError twice"):
            return
        it.claim(not c.stub.attrs["closed"], "one reply that cannot be sent closes the connection")
        m2 = full_id(it, "HasActorMessage", actor_ref=ref(it, home, T("other")))
        c.q.append(m2)
        nap(it, 5)
        one(it, c, m2, "a request after another one")
    run("sending the reply fails", go, max_paths=400)


def _loop(ctx, kind, cls):
    run = Sc(ctx, "connection-keeps-being-served", ctx.method(cls, "on_new_channel")).run

    def slow(it):
        p, w, act, state, home = world(it, kind, cls)
        c, d = Conn(it), Conn(it, "d")
        gate = it.call(("ext", "asyncio.Event"), [], [])
        uc = user_code(it, state)
        n = [0]

        def user_():
            n[0] += 1
            if n[0] == 1:
                it.await_(it.call(it.attr(gate, "wait"), [], []))
            return uc()
        state["user"] = user_
        s = serve(it, p, c)
        serve(it, p, d)
        ms = [full_id(it, "SendMessage", actor_ref=ref(it, home, A), content=T("c", i)) for i in range(2)]
        m3 = full_id(it, "HasActorMessage", actor_ref=ref(it, home, A))
        m4 = full_id(it, "SendMessage", actor_ref=ref(it, home, A), content=T("c", 4))
        c.q += [ms[0], ms[1], m3]
        d.q.append(m4)
        nap(it, 3)
        it.claim(not replies_to(it, c, ms[0]), "a request is answered before it is handled")
        for m, cc in ((ms[1], c), (m3, c), (m4, d)):
            one(it, cc, m, "a request received while another one is being handled")
        it.call(it.attr(gate, "set"), [], [])
        nap(it, 3)
        one(it, c, ms[0], "a request")
        it.claim(len(c.sent) == 3 and len(d.sent) == 1, "a reply is sent on another connection")
        c.stub.attrs["closed"] = True
        nap(it, 3)
        it.claim(s.done, "the loop of a connection that ended keeps running")
    run("several requests and connections", slow, max_paths=400)

    def unread(it):
        p, w, act, state, home = world(it, kind, cls)
        c = Conn(it)
        gate = it.call(("ext", "asyncio.Event"), [], [])
        state["user"] = lambda: it.await_(it.call(it.attr(gate, "wait"), [], []))
        serve(it, p, c)
        m = full_id(it, "SendMessage", actor_ref=ref(it, home, A), content=T("c"))

        def bad():
            e = it.call(it.prog.module("backends.message").defs["DeserializeMessageFailed"], [T("unread")], [])
            e.attrs["__cause__"] = Exc("ValueError", ["cannot read"])
            raise Raised(e, "deserialize")
        m2 = full_id(it, "HasActorMessage", actor_ref=ref(it, home, A))
        c.q += [m, bad, m2]
        nap(it, 3)
        rs = [r for r in c.sent if is_reply(r) and freeze(r.attrs.get("message_id")) == T("unread")]
        it.claim(len(rs) == 1 and is_msg(rs[0], "ErrorMessage"), "a request that cannot be deserialized is not answered with an error")
        it.claim(len(rs) != 1 or err_is(it, rs[0], "ValueError"), "the answer to a request that cannot be deserialized does not carry the cause")
        it.claim(not c.stub.attrs["closed"], "a request that cannot be deserialized closes the connection")
        it.call(it.attr(gate, "set"), [], [])
        nap(it, 3)
        one(it, c, m, "a request received before one that cannot be deserialized")
        one(it, c, m2, "a request received after one that cannot be deserialized")
    run("a request that cannot be deserialized", unread)

    def ends(it):
        p, w, act, state, home = world(it, kind, cls)
        c = Conn(it)
        s = serve(it, p, c)
        nap(it, 0.1)
        e = outcome(it, "the connection", "EOFError", "ConnectionResetError", "BrokenPipeError", "ValueError")

        def boom():
            it.raise_(e)
        c.q.append(boom)
        nap(it, 3)
        it.claim(s.done and c.stub.attrs["closed"], "a broken connection is not closed")
        it.claim(e == "ValueError" or s.state == "done", "the end of a connection is an error")
    run("end of a connection", ends)


def _ucx(ctx, cls):
    f = ctx.method(cls, "on_new_channel")

    def go(it):
        p, w, act, state, home = world(it, "sub", cls)
        c = Conn(it, "ucx", kind="UCXChannel")

        def buf(it, a, k):
            if outcome(it, "the buffer", "known", "KeyError") != "known":
                it.raise_("KeyError")
            return T("buffer")
        it.stubs["BufferRef.get_buffer"] = buf
        serve(it, p, c)
        m = ctl(it, "switch_to_copy_to", home, content=Seq("list", [Seq("tuple", [home, "b"])]))
        c.q.append(m)
        nap(it, 3)
        r = one(it, c, m, "a request to copy buffers")
        if r is not None:
            bad = any(not o.endswith(("value", "known")) for o in it.outcomes)
            it.claim(is_msg(r, "ErrorMessage") == bad, "a failed copy is answered with a result" if bad else "a copy that succeeded is answered with an error")
        m2 = full_id(it, "HasActorMessage", actor_ref=ref(it, home, A))
        c.q.append(m2)
        nap(it, 3)
        one(it, c, m2, "a request after another one")
    Sc(ctx, "one-reply", f).run("copy of buffers over UCX", go)

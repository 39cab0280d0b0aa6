"""C13: messages passed on to another pool, by abstract interpretation with a distinct symbol in every field."""
from .records import *

META = ("protocol", "message_trace", "profiling_context")


def full(it, cls, **kw):
    """a message of which every optional field is a distinct symbol"""
    f = it.prog.method(it.prog.module("backends.message").defs[cls], "__init__")
    have = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
    for n in META:
        if n in have:
            kw.setdefault(n, T("meta", n))
    return message(it, cls, message_id=T("mid", "original"), **kw)


def same(it, what, m, new, fields):
    it.claim(isinstance(new, Obj) and new.cls is m.cls, f"{what}: the message passed on is of another kind")
    if not isinstance(new, Obj):
        return
    it.claim(it.fz(new.attrs.get("message_id")) == it.fz(m.attrs.get("message_id")), f"{what}: the message passed on has another id")
    for n in tuple(fields) + META:
        if n in m.attrs:
            it.claim(it.fz(new.attrs.get(n)) == it.fz(m.attrs[n]), f"{what}: the message passed on has lost the original's {n}")


def at(it, what, m, addr, uid):
    r = m.attrs.get("actor_ref") if isinstance(m, Obj) else None
    it.claim(isinstance(r, Obj) and r.attrs.get("uid") == uid and r.attrs.get("address") == addr, f"{what}: the message passed on does not name the actor at the pool that hosts it")


class Mid(World):
    """World whose remote pools answer with a recognisable reply."""

    def go(self, handler, m):
        it = self.it
        it.fz(m)
        fail = outcome(it, "the other pool answers", "result", "error") == "error"

        def script(addr, x):
            self.reply = self.error(x, "ValueError") if fail else message(it, "ResultMessage", message_id=x.attrs.get("message_id"), result=T("reply"), **({"profiling_context": T("reply prof")}))
            return self.reply
        self.script = script
        st, v = ask(it, self.p, handler, m)
        return st, v

    def answered(self, what, st, v, m, result=True):
        it = self.it
        ok = st == "ok" and isinstance(v, Obj)
        it.claim(ok, f"{what}: fails")
        if not ok or not hasattr(self, "reply"):
            return
        it.claim(it.fz(v.attrs.get("message_id")) == it.fz(m.attrs.get("message_id")), f"{what}: the reply does not carry the original message's id")
        it.claim(v.cls is self.reply.cls, f"{what}: the other pool's answer is not returned")
        if is_msg(self.reply, "ErrorMessage"):
            it.claim(it.fz(v.attrs.get("error")) == it.fz(self.reply.attrs.get("error")), f"{what}: the other pool's error is not returned")
        elif result:
            it.claim(freeze(v.attrs.get("result")) == T("reply"), f"{what}: the other pool's result is not returned")


def redirect(ctx: Ctx):
    main, sub = main_pool(ctx), sub_pool(ctx)

    def via_main(name, cls, mk, fields, uid=B, whole=False):
        f = ctx.method(main, name)
        for via in (MAIN, SUB1):
            def go(it, via=via):
                w = Mid(it, main)
                m = mk(it, w, via)
                before = dict(m.attrs)
                st, v = w.go(name, m)
                it.claim(len(w.sent) == 1 and w.sent[0][0] == SUB1, f"{name}: the message is not passed on once, to the pool that hosts the actor")
                if len(w.sent) != 1:
                    return
                orig = Obj(m.cls, before)
                same(it, name, orig, w.sent[0][1], fields)
                if "actor_ref" in m.attrs:
                    at(it, name, w.sent[0][1], SUB1, uid)
                w.answered(name, st, v, orig)
            Sc(ctx, "redirect", f).run(f"{name} for an actor of a sub pool addressed " + ("directly" if via == SUB1 else "through the main pool"), go)

    via_main("send", "SendMessage", lambda it, w, via: full(it, "SendMessage", actor_ref=ref(it, via, B), content=Seq("tuple", [T("c")])), ("content",))
    via_main("tell", "TellMessage", lambda it, w, via: full(it, "TellMessage", actor_ref=ref(it, via, B), content=Seq("tuple", [T("c")])), ("content",))
    via_main("destroy_actor", "DestroyActorMessage", lambda it, w, via: full(it, "DestroyActorMessage", actor_ref=ref(it, via, B)), ())
    via_main("cancel", "CancelMessage", lambda it, w, via: full(it, "CancelMessage", address=SUB1, cancel_message_id=T("other")), ("address", "cancel_message_id"))
    via_main("create_actor", "CreateActorMessage", lambda it, w, via: full(it, "CreateActorMessage", actor_cls=w.act, actor_id=C, args=Seq("tuple", [T("arg")]), kwargs=Dct([("kw", T("kwarg"))]),
                                                                       allocate_strategy=strategy(it, SUB1)), ("actor_cls", "actor_id", "args", "kwargs"))

    f = ctx.method(main, "handle_control_command")

    def control(it):
        w = Mid(it, main)
        ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "get_config")
        m = full(it, "ControlMessage", address=SUB1, control_message_type=ct, content=T("content"))
        st, v = w.go("handle_control_command", m)
        it.claim(len(w.sent) == 1 and w.sent[0][0] == SUB1, "a control message for a sub pool is not passed on to it")
        if len(w.sent) == 1:
            same(it, "control", m, w.sent[0][1], ("address", "control_message_type", "content"))
            w.answered("control", st, v, m)
    Sc(ctx, "redirect", f).run("control message for a sub pool", control)

    def sync(it):
        w = World(it, main)
        for a in (SUB1, SUB2):
            it.setitem(it.attr(w.p, "sub_processes"), a, Stub("process"))
        it.stubs["AbstractActorPool._sync_pool_config"] = lambda it, a, k: None
        ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "sync_config")
        m = full(it, "ControlMessage", address=MAIN, control_message_type=ct, content=T("config"))
        st, v = ask(it, w.p, "handle_control_command", m)
        it.claim(sorted(a for a, _ in w.sent) == [SUB1, SUB2], "a new configuration is not passed on to every sub pool")
        ids = [it.fz(x.attrs.get("message_id")) for _, x in w.sent]
        it.claim(len(set(ids)) == len(ids), "messages in flight at the same time share an id")
        for a, x in w.sent:
            it.claim(is_msg(x, "ControlMessage") and freeze(x.attrs.get("content")) == T("config") and x.attrs.get("address") == MAIN and it.fz(x.attrs.get("control_message_type")) == it.fz(ct)
                     and freeze(x.attrs.get("protocol")) == T("meta", "protocol"), "a new configuration is passed on with other content")
        it.claim(st == "ok" and is_msg(v, "ResultMessage") and it.fz(v.attrs.get("message_id")) == T("mid", "original"), "the reply does not carry the original message's id")
    Sc(ctx, "redirect", f).run("configuration for all sub pools", sync)

    fs = ctx.method(sub, "actor_ref")

    def lookup(it):
        p = make(it, "sub", sub)
        sent = []
        fail = outcome(it, "the main pool answers", "result", "error") == "error"

        def call(it, a, k):
            def run():
                sent.append((a[1], a[2]))
                i = a[2].attrs.get("message_id")
                if fail:
                    return message(it, "ErrorMessage", message_id=i, address=MAIN, pid=1, error_type=None, error=Exc("ValueError", ["x"]), traceback=None)
                return message(it, "ResultMessage", message_id=i, result=ref(it, SUB2, A))
            return Coro(run, "call")
        it.stubs["AbstractActorPool.call"] = call
        m = full(it, "ActorRefMessage", actor_ref=ref(it, SUB1, A))
        st, v = ask(it, p, "actor_ref", m)
        it.claim(len(sent) == 1 and sent[0][0] == MAIN and is_msg(sent[0][1], "ActorRefMessage"), "the lookup of an actor the sub pool does not host is not passed on to the main pool")
        if len(sent) == 1:
            r = sent[0][1].attrs.get("actor_ref")
            it.claim(isinstance(r, Obj) and r.attrs.get("uid") == A, "the lookup passed on is for another actor")
        it.claim(st == "ok" and isinstance(v, Obj) and it.fz(v.attrs.get("message_id")) == T("mid", "original"), "the reply to a lookup does not carry the original message's id")
        it.claim(st == "ok" and is_msg(v, "ErrorMessage" if fail else "ResultMessage"), "the main pool's answer to a lookup is not returned")
        if st == "ok" and is_msg(v, "ResultMessage"):
            it.claim(v.attrs["result"].attrs.get("address") == SUB2, "the main pool's answer to a lookup is not returned")
    Sc(ctx, "redirect", fs).run("lookup of an actor of another pool", lookup)

    for kind, cls, home in (("main", main, MAIN), ("sub", sub, SUB1)):
        ff = ctx.method(cls, "forward")

        def forward(it, kind=kind, cls=cls):
            p = make(it, kind, cls)
            sent = []

            def call(it, a, k):
                def run():
                    sent.append((a[1], a[2]))
                    return message(it, "ResultMessage", message_id=a[2].attrs.get("message_id"), result=T("reply"))
                return Coro(run, "call")
            it.stubs["AbstractActorPool.call"] = call
            raw = full(it, "SendMessage", actor_ref=ref(it, "far:1", A), content=T("c"))
            m = message(it, "ForwardMessage", message_id=T("mid", "original"), address="far:1", raw_message=raw)
            before = it.fz(raw)
            st, v = ask(it, p, "forward", m)
            it.claim(len(sent) == 1 and sent[0][0] == "far:1" and sent[0][1] is raw and it.fz(raw) == before, "a forwarded message is not passed on unchanged to its destination")
            it.claim(st == "ok" and is_msg(v, "ResultMessage") and it.fz(v.attrs.get("message_id")) == T("mid", "original") and freeze(v.attrs.get("result")) == T("reply"), "the reply to a forwarded message is not returned")
        Sc(ctx, "forward", ff).run(f"forwarding by a {kind} pool", forward)
    _wrap(ctx)


def _wrap(ctx):
    cls = ctx.prog.module("backends.core").defs["ActorCallerThreadLocal"]
    f = ctx.method(cls, "call")
    mt = ctx.prog.module("backends.communication.base").defs["ChannelType"]

    def go(it):
        o = Obj(cls, {"_clients": Dct(), "_client_to_message_futures": Dct(), "_profiling_data": Stub("profiling")})
        kind = outcome(it, "message", "send", "control", "create_actor", "destroy_actor", "has_actor", "actor_ref", "tell", "cancel")
        chan = outcome(it, "channel", "remote", "ipc", "local")
        dest = outcome(it, "connected to", "far:1", "proxy:1", "far:2", "far:12", "proxy2:1")
        dest, where = ("destination" if dest == "far:1" else "proxy"), dest
        client = Stub("client", {"channel_type": it.attr(mt, chan), "dest_address": where})
        asked, sent = [], []

        def get(it, a, k):
            d = dict(zip(("self", "router", "dest_address", "proxy_addresses"), a))
            d.update({n: v for n, v in k})
            asked.append(d)
            return Coro(lambda: client, "get_client")
        it.stubs["ActorCallerThreadLocal.get_client"] = get

        def cwc(it, a, k):
            d = dict(zip(("self", "client", "message", "wait"), a))
            d.update({n: v for n, v in k})
            sent.append(d)
            return Coro(lambda: T("reply"), "call_with_client")
        it.stubs["ActorCallerThreadLocal.call_with_client"] = cwc
        if kind == "control":
            m = full(it, "ControlMessage", address="far:1", control_message_type=it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "get_config"), content=None)
        elif kind == "create_actor":
            m = full(it, "CreateActorMessage", actor_cls=T("cls"), actor_id=A, args=Seq("tuple", []), kwargs=Dct(), allocate_strategy=Stub("strategy"))
        elif kind == "cancel":
            m = full(it, "CancelMessage", address="far:1", cancel_message_id=b"call")
        elif kind in ("send", "tell"):
            m = full(it, "SendMessage" if kind == "send" else "TellMessage", actor_ref=ref(it, "far:1", A), content=T("c"))
        else:
            m = full(it, "".join(x.title() for x in kind.split("_")) + "Message", actor_ref=ref(it, "far:1", A))
        wait = outcome(it, "wait", True, False)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(o, "call"), [T("router"), "far:1", m, wait], [("proxy_addresses", PROX)])))
        it.claim(st == "ok" and freeze(v) == T("reply"), "the reply is not returned")
        it.claim(len(asked) == 1 and asked[0].get("dest_address") == "far:1" and it.fz(asked[0].get("proxy_addresses")) == it.fz(PROX) and it.fz(asked[0].get("router")) == T("router"), "the connection is not looked up for the destination with the proxy route given")
        it.claim(len(sent) == 1 and sent[0]["client"] is client and sent[0].get("wait", True) is wait, "the message is not sent once on the connection obtained, with the wait mode given")
        if len(sent) != 1:
            return
        x = sent[0]["message"]
        if kind != "control" and chan == "remote" and dest == "proxy":
            it.claim(is_msg(x, "ForwardMessage") and x.attrs.get("raw_message") is m and x.attrs.get("address") == "far:1", "a message sent through a proxy is not wrapped with its destination")
            it.claim(isinstance(x, Obj) and it.fz(x.attrs.get("message_id")) == it.fz(m.attrs["message_id"]), "a wrapped message does not keep the id of the original: its reply finds no caller")
        else:
            it.claim(x is m, "a message that needs no proxy is not sent as it is")
    Sc(ctx, "wrap", f).run("sending through a connection", go)


PROX = Seq("list", ["p:1", "p:2"])

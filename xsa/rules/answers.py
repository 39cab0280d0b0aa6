"""C02 (scenarios): every call that is waited for gets its own reply or an error, by abstract interpretation of the caller
and its listener with three concurrent calls under every order of cancellations, replies and failures."""
from .lifecycle import *
from ..machine import Fut


class Peer:
    """A connection: replies are queued by the scenario; reading from a closed one raises EOFError."""

    def __init__(self, it, closes="ok"):
        self.it, self.q, self.sent, self.closes = it, [], [], closes
        self.stub = Stub("client", {"closed": False, "dest_address": SUB1, "channel_type": it.attr(it.prog.module("backends.communication.base").defs["ChannelType"], "remote")},
                         {"send": lambda it, a, k: Coro(lambda: self.send(a[0]), "send"), "send_buffers": lambda it, a, k: Coro(lambda: self.send(a[1]), "send_buffers"), "recv": lambda it, a, k: Coro(self.recv, "recv"), "close": lambda it, a, k: Coro(self.close, "close")})
        self.how = {}
        self.reading = 0

    def recv(self):
        it = self.it
        self.reading += 1
        it.claim(self.reading == 1, "two readers read from one connection")
        try:
            if not self.q and not self.stub.attrs["closed"]:
                it.block(lambda: bool(self.q) or self.stub.attrs["closed"])
            it.raise_injected()
        finally:
            self.reading -= 1
        if not self.q:
            it.raise_("EOFError")
        v = self.q.pop(0)
        if callable(v):
            v = v()
        return v

    def send(self, m):
        it = self.it
        n = len(self.sent)
        self.sent.append(m)
        o = self.how.get(n, "ok")
        if o == "answered at once":
            self.q.append(reply(it, m, n))
            nap(it, 0.5)
        elif o == "slow":
            nap(it, 0.5)
        elif o != "ok":
            it.pause()
            it.raise_(o)

    def close(self):
        it = self.it
        self.stub.attrs["closed"] = True
        it.pause()
        if self.closes != "ok":
            it.raise_(self.closes)


def nap(it, t):
    it.await_(it.call(("ext", "asyncio.sleep"), [t], []))


def reply(it, m, n):
    return message(it, "ResultMessage", message_id=m.attrs["message_id"], result=f"r{n}")


def answers(ctx: Ctx):
    core = ctx.prog.module("backends.core")
    cls = core.defs["ActorCallerThreadLocal"]
    f = ctx.prog.method(cls, "call")
    run = Sc(ctx, "every-call-is-resolved", f).run

    def world(it, closes="ok"):
        it.stubs["asyncio.get_running_loop"] = lambda it, a, k: it.loop()
        c = it.call(cls, [], [])
        peer = Peer(it, closes)
        got = []
        router = Stub("router", {"external_address": MAIN}, {n: (lambda it, a, k: Coro(lambda: (got.append(a), peer.stub)[1], "get_client")) for n in ("get_client", "get_client_via_type")})
        prof = Stub("profiling", {}, {"collect_actor_call": lambda it, a, k: None})
        it.setattr(c, "_profiling_data", prof)

        def call(i, wait=True):
            m = message(it, "SendMessage", message_id=T("id", i), actor_ref=ref(it, SUB1, "u"), content=None)
            return it.spawn(it.call(it.attr(c, "call"), [router, SUB1, m, wait], []), f"call{i}")
        return c, peer, call, router

    def listen(it):
        closes = outcome(it, "closing", "ok", "ConnectionError")
        c, peer, call, router = world(it, closes)
        calls = [call(i) for i in range(3)]
        nap(it, 0.1)
        ms = list(peer.sent)
        it.claim(len(ms) == 3, "a call is not sent")
        if len(ms) < 3:
            return
        gone = outcome(it, "cancelled by its caller", (), (0,), (1,), (2,), (0, 2))
        for i in gone:
            it.call(it.attr(calls[i], "cancel"), [], [])
        nap(it, 0.1)
        ev = outcome(it, "then", "answers in reverse order", "an unknown reply, then answers", "one reply cannot be deserialized", "one answer, then the connection ends", "the connection is reset", "the connection ends",
                     "the connection is closed by this side", "an answer while the connection is closed", "a broken message")

        def boom(name):
            def g():
                it.raise_(name)
            return g
        want = {}
        if ev == "answers in reverse order":
            err = message(it, "ErrorMessage", message_id=ms[1].attrs["message_id"], address=SUB1, pid=1, error_type=None, error=T("error"), traceback=None)
            peer.q += [reply(it, ms[2], 2), err, reply(it, ms[0], 0)]
            want = {0: "r0", 1: err, 2: "r2"}
        elif ev.startswith("an unknown"):
            peer.q += [message(it, "ResultMessage", message_id=T("id", 99), result="x")] + [reply(it, ms[i], i) for i in (0, 1, 2)]
            want = {0: "r0", 1: "r1", 2: "r2"}
        elif ev.startswith("one reply"):
            def bad():
                e = it.call(it.prog.module("backends.message").defs["DeserializeMessageFailed"], [T("id", 1)], [])
                e.attrs["__cause__"] = Exc("ValueError", ["cannot read"])
                raise Raised(e, "deserialize")
            peer.q += [bad, reply(it, ms[0], 0), reply(it, ms[2], 2)]
            want = {0: "r0", 1: "ValueError", 2: "r2"}
        elif ev.startswith("one answer"):
            peer.q += [reply(it, ms[1], 1), boom("EOFError")]
            want = {0: "ServerClosed", 1: "r1", 2: "ServerClosed"}
        elif ev.endswith("is reset"):
            peer.q += [boom("ConnectionResetError")]
            want = {0: "ServerClosed", 1: "ServerClosed", 2: "ServerClosed"}
        elif ev.endswith("connection ends"):
            peer.q += [boom("EOFError")]
            want = {0: "ServerClosed", 1: "ServerClosed", 2: "ServerClosed"}
        elif ev.endswith("this side"):
            peer.stub.attrs["closed"] = True
            want = {0: "ServerClosed", 1: "ServerClosed", 2: "ServerClosed"}
        elif ev.startswith("an answer while"):
            def last():
                peer.stub.attrs["closed"] = True
                return reply(it, ms[1], 1)
            peer.q += [last]
            want = {0: "ServerClosed", 1: "r1", 2: "ServerClosed"}
        else:
            peer.q += [boom("ValueError")]
            want = {0: "error", 1: "error", 2: "error"}
        nap(it, 10)
        errs = []
        for i, t in enumerate(calls):
            if i in gone:
                continue
            it.claim(t.done, "a caller waits forever")
            if not t.done:
                continue
            w = want[i]
            if not isinstance(w, str):
                it.claim(t.state == "done" and t.value is w, "an error reply does not reach its caller")
                continue
            if w.startswith("r"):
                it.claim(t.state == "done" and is_msg(t.value, "ResultMessage") and t.value.attrs.get("result") == w, "a call does not get its own reply")
            else:
                it.claim(t.state == "error" and (w == "error" or err_is(it, t.value, w)), f"a call whose connection is gone does not fail with {w}" if w != "error" else "a call that cannot be answered does not fail")
                errs.append(t.value)
        it.claim(len({id(e) for e in errs}) == len(errs), "one exception instance is raised in several callers")
        if ev in ("one answer, then the connection ends", "the connection is reset", "the connection ends", "the connection is closed by this side", "an answer while the connection is closed"):
            it.claim(peer.stub.attrs["closed"], "a broken connection is not closed")
            it.claim(all(t.done for _, t in items_of(it.attr(c, "_clients"))), "the listener of a closed connection keeps running")
        else:
            t = call(7)
            nap(it, 0.1)
            it.claim(len(peer.sent) == 4, "a later call is not sent")
            if len(peer.sent) == 4:
                peer.q.append(reply(it, peer.sent[3], 7))
                nap(it, 3)
                it.claim(t.state == "done" and t.value.attrs.get("result") == "r7", "a later call is not answered")
    run("three calls on one connection", listen, max_paths=3000)

    def send(it):
        c, peer, call, router = world(it, outcome(it, "closing", "ok", "ConnectionError"))
        wait = outcome(it, "wait", True, False)
        how = outcome(it, "sending the second", "ok", "answered at once", "slow", "ConnectionResetError", "BrokenPipeError", "ValueError")
        peer.how[1] = how
        first = call(0)
        nap(it, 0.05)
        way = outcome(it, "called through", "call", "a connection of a given kind", "buffers over a connection of a given kind")
        if way == "call":
            second = call(1, wait)
        else:
            def direct():
                cl = it.await_(it.call(it.attr(c, "get_client_via_type"), [router, SUB1, T("kind")], []))
                m = message(it, "SendMessage", message_id=T("id", 1), actor_ref=ref(it, SUB1, "u"), content=None)
                if way.startswith("a "):
                    return it.await_(it.call(it.attr(c, "call_with_client"), [cl, m, wait], []))
                return it.await_(it.call(it.attr(c, "call_send_buffers"), [cl, [], m, wait], []))
            second = it.spawn(Coro(direct, "call"), "call1")
        nap(it, 0.2)
        if how in ("ok", "slow"):
            nap(it, 1)
            peer.q.append(reply(it, peer.sent[1], 1))
        nap(it, 5)
        if how in ("ok", "answered at once", "slow"):
            it.claim(second.done, "a caller waits forever")
            v = second.value
            if second.done and not wait:
                it.claim(isinstance(v, Fut) and v.done, "a call that was answered is not resolved")
                v = v.value if isinstance(v, Fut) else v
            it.claim(not second.done or is_msg(v, "ResultMessage") and v.attrs.get("result") == "r1", "a call does not get its own reply")
            peer.q.append(reply(it, peer.sent[0], 0))
            nap(it, 3)
            it.claim(first.state == "done" and first.value.attrs.get("result") == "r0", "a call does not get its own reply")
        elif how == "ValueError":
            it.claim(second.state == "error" and err_is(it, second.value, "ValueError"), "an error of sending is not raised")
            peer.q.append(reply(it, peer.sent[0], 0))
            nap(it, 3)
            it.claim(first.state == "done" and first.value.attrs.get("result") == "r0", "a call that cannot be sent breaks the others")
        else:
            it.claim(second.state == "error" and err_is(it, second.value, "ServerClosed"), "a call over a broken connection does not fail with ServerClosed")
            it.claim(peer.stub.attrs["closed"], "a broken connection is not closed")
            it.claim(first.state == "error" and err_is(it, first.value, "ServerClosed"), "a call pending on a broken connection waits forever")
    run("sending", send, max_paths=2000)

    def kind(it):
        c, peer, call, router = world(it)
        buffers = outcome(it, "buffers", False, True)

        def direct():
            cl = it.await_(it.call(it.attr(c, "get_client_via_type"), [router, SUB1, T("kind")], []))
            m = message(it, "SendMessage", message_id=T("id", 0), actor_ref=ref(it, SUB1, "u"), content=None)
            return it.await_(it.call(it.attr(c, "call_send_buffers" if buffers else "call_with_client"), [cl, [], m] if buffers else [cl, m], []))
        t = it.spawn(Coro(direct, "call"), "call")
        nap(it, 0.2)
        it.claim(len(peer.sent) == 1, "a call is not sent")
        if outcome(it, "then", "answered", "gone") == "gone":
            peer.stub.attrs["closed"] = True
            nap(it, 3)
            it.claim(t.state == "error" and err_is(it, t.value, "ServerClosed"), "a call pending on a broken connection waits forever")
        elif peer.sent:
            peer.q.append(reply(it, peer.sent[0], 0))
            nap(it, 3)
            it.claim(t.state == "done" and t.value.attrs.get("result") == "r0", "a call does not get its own reply")
    run("a connection of a given kind", kind)

    def stop(it):
        c, peer, call, router = world(it, outcome(it, "closing", "ok", "ConnectionError"))
        calls = [call(i) for i in range(ctx.more(2, 4))]
        nap(it, 0.1)
        it.spawn(it.call(it.attr(c, "stop"), [], []), "stop")
        nap(it, 5)
        for t in calls:
            it.claim(t.done, "a call pending when the caller is stopped waits forever")
            it.claim(not t.done or t.state in ("error", "cancelled"), "a call pending when the caller is stopped is answered")
        it.claim(peer.stub.attrs["closed"], "stopping the caller leaves a connection open")
    run("stopping the caller", stop)

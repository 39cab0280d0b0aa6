"""C12: cancellation of calls, on the caller's and on the executing side."""
import os
from .client import *


def cancel(ctx: Ctx):
    _client(ctx)
    _wait_for(ctx)
    for kind, cls, home in (("main", main_pool(ctx), MAIN), ("sub", sub_pool(ctx), SUB1)):
        _server(ctx, kind, cls, home)
    _redirect(ctx, main_pool(ctx))


def ops(it):
    r = ref(it, "there:1", A, PX)
    act = actor_class(it)
    return {"create_actor": ((act,), dict(uid=A, address="there:1"), "CreateActorMessage"), "destroy_actor": ((r,), {}, "DestroyActorMessage"),
            "has_actor": ((r,), {}, "HasActorMessage"), "actor_ref": ((r,), {}, "ActorRefMessage"),
            "send": ((r, Seq("tuple", [T("content")])), {}, "SendMessage")}


def _client(ctx):
    cls = ctx.prog.module("backends.context").defs["IndigenActorContext"]
    for name in ("create_actor", "destroy_actor", "has_actor", "actor_ref", "send"):
        f = ctx.method(cls, name)

        def go(it, name=name):
            it.stubs["core.create_local_actor_ref"] = lambda it, a, k: None
            c = Client(it)
            a, k, kind = ops(it)[name]
            t = it.spawn(c.op(name, *a, **k), name)
            it.drain()
            it.claim(len(c.of(kind)) == 1, "the operation does not send its message")
            if len(c.of(kind)) != 1:
                return
            d = c.of(kind)[0]
            first = outcome(it, "cancelled", "while waiting", "after the reply arrived", "never")
            if first != "while waiting":
                c.reply(d, c.ok(d, ref(it, "there:1", A)))
                if first == "never":
                    it.drain()
                    it.claim(t.state == "done", "a reply does not complete the call")
                    it.claim(not c.of("CancelMessage"), "a call that is not cancelled is cancelled remotely")
                    return
            it.task_cancel(t)
            it.drain()
            cs = c.of("CancelMessage")
            if first != "while waiting" and not cs:
                it.claim(t.state in ("done", "cancelled"), "the call does not end")
                return
            it.claim(len(cs) == 1, "cancelling a waiting call does not ask the pool to cancel it exactly once")
            if not cs:
                return
            m = cs[0]["message"]
            it.claim(it.fz(m.attrs.get("cancel_message_id")) == it.fz(d["message"].attrs.get("message_id")), "the message to be cancelled is not the one of the call")
            it.claim(cs[0]["address"] == d["address"] == m.attrs.get("address"), "the cancellation is not sent to the pool the call was sent to")
            it.claim(it.fz(m.attrs.get("message_id")) != it.fz(d["message"].attrs.get("message_id")), "the cancellation uses the id of the call: its reply completes the call")
            it.claim(it.fz(cs[0]["proxy_addresses"]) == it.fz(d["proxy_addresses"]), "the cancellation does not take the proxy route of the call")
            if first != "while waiting":
                return
            it.claim(not t.done, "a cancelled call does not wait for its outcome")
            ans = outcome(it, "answer to the cancellation", "cancelled", "already finished")
            if ans == "already finished":
                c.reply(cs[0], c.err(cs[0], "CannotCancelTask"))
                it.drain()
                it.claim(t.state == "cancelled", "a call that can no longer be cancelled does not end as cancelled")
                return
            c.reply(cs[0], c.ok(cs[0], True))
            it.drain()
            it.claim(not t.done, "a cancelled call does not wait for its outcome")
            end = outcome(it, "outcome of the call", "cancelled", "value", "error")
            c.reply(d, c.err(d, "CancelledError") if end == "cancelled" else c.err(d, "ValueError") if end == "error" else c.ok(d, ref(it, "there:1", A)))
            it.drain()
            it.claim(t.done, "a cancelled call never ends")
            if end == "value":
                it.claim(t.state == "done", "a call that completed although it was cancelled does not return its result")
            elif end == "error":
                it.claim(t.state == "error" and "ValueError" in names(it, t.value), "a call that failed although it was cancelled does not raise its error")
            else:
                it.claim(t.state == "cancelled", "a cancelled call does not end as cancelled")
        Sc(ctx, "client", f).run("cancelling the caller", go)

    def oneway(it):
        c = Client(it)
        r = ref(it, "there:1", A, PX)
        st, v = attempt(it, lambda: it.await_(c.op("send", r, Seq("tuple", [T("content")]), wait_response=False)))
        it.claim(st == "ok" and isinstance(v, Fut) and not c.of("CancelMessage"), "a call that is not waited for does not return its future")
    Sc(ctx, "client", ctx.method(cls, "send")).run("a call that is not waited for", oneway)


def names(it, v):
    from ..machine import exc_names
    return exc_names(it.prog, v) if v is not None else ()


def _wait_for(ctx):
    f = ctx.prog.module("api").defs["wait_for"]

    def go(it):
        seen = []
        gate = it.call(("ext", "asyncio.Event"), [], [])
        how = outcome(it, "the awaited call", "completes", "fails", "is cancelled", "outlasts the timeout", "outlasts its caller")
        stubborn = how == "outlasts the timeout" and outcome(it, "reacts to cancellation", True, False) is False

        def body():
            try:
                if how in ("outlasts the timeout", "outlasts its caller"):
                    it.await_(it.call(it.attr(gate, "wait"), [], []))
                else:
                    it.pause()
            except Raised as x:
                seen.append(cname(it.excval(x.value)))
                if stubborn:
                    it.await_(it.call(it.attr(gate, "wait"), [], []))
                raise
            if how == "fails":
                it.raise_("ValueError")
            if how == "is cancelled":
                it.raise_("CancelledError")
            return T("answer")
        call = Coro(body, "call")
        t = it.spawn(it.call(f, [call, 5], []), "wait_for")
        if how == "outlasts its caller":
            it.await_(it.call(("ext", "asyncio.sleep"), [1], []))
            it.task_cancel(t)
        it.await_(it.call(("ext", "asyncio.sleep"), [8], []))
        it.claim(t.done, "waiting with a timeout does not end when the time is over" if stubborn else "waiting with a timeout does not end")
        if how == "completes":
            it.claim(t.state == "done" and freeze(t.value) == T("answer"), "the result of the call is not returned")
        elif how == "fails":
            it.claim(t.state == "error" and "ValueError" in names(it, t.value), "the error of the call is not raised")
        elif how == "is cancelled":
            it.claim(t.state == "cancelled", "a cancelled call does not end as cancelled")
        else:
            it.claim(seen == ["CancelledError"], "the call is not cancelled when its caller is" if how == "outlasts its caller" else "the call is not cancelled when the time is over")
            if how == "outlasts its caller":
                it.claim(t.state == "cancelled", "a cancelled caller does not end as cancelled")
            else:
                it.claim(t.state == "error" and "TimeoutError" in names(it, t.value), "running out of time is not reported as a timeout")
    Sc(ctx, "wait-for", f).run("waiting with a timeout", go)


def _server(ctx, kind, cls, home):
    f = ctx.method(cls, "process_message")

    def go(it):
        p = make(it, kind, cls)
        plain_remote(it)
        gate, gate_b = (it.call(("ext", "asyncio.Event"), [], []) for _ in range(2))
        seen = []

        def receive(it, o, m):
            try:
                it.await_(it.call(it.attr(gate if o is act.made[0] else gate_b, "wait"), [], []))
            except Raised as x:
                seen.append((o, cname(it.excval(x.value))))
                if outcome(it, "the method", "ends", "completes anyway") == "ends":
                    raise
            return T("answer")
        act = actor_class(it, receive=receive)
        ask(it, p, "create_actor", create_msg(it, act, A, home))
        ask(it, p, "create_actor", create_msg(it, act, B, home))
        replies = []
        it.call(it.prog.module("backends.pool").defs["_register_message_handler"], [cls], [])
        ch = Stub("channel", {"local_address": "l", "dest_address": "d", "closed": False},
                  methods={"send": lambda it, a, k: Coro(lambda: replies.append(a[0]), "channel.send")})
        mk = lambda u: ref_msg(it, "SendMessage", u, home, content=Seq("tuple", [T("content", u)]))  # noqa: E731
        ma, mb = mk(A), mk(B)
        for m in (ma, mb):
            it.spawn(it.call(it.attr(p, "process_message"), [m, ch], []), "process")
        when = outcome(it, "cancelled", "while running", "after another call has ended", "at the start", "after its end", "unknown id")
        if when != "at the start":
            it.drain()
        if when == "after another call has ended":
            it.call(it.attr(gate_b, "set"), [], [])
            it.drain()
        if when == "after its end":
            it.call(it.attr(gate, "set"), [], [])
            it.drain()
        target = T("mid", "nobody") if when == "unknown id" else ma.attrs["message_id"]
        cm = message(it, "CancelMessage", message_id=T("mid", "cancel"), address=home, cancel_message_id=target)
        it.spawn(it.call(it.attr(p, "process_message"), [cm, ch], []), "process")
        it.drain()
        by = {}
        for r in replies:
            by.setdefault(it.fz(r.attrs.get("message_id")), []).append(r)
        rc = by.get(T("mid", "cancel"), [])
        it.claim(len(rc) == 1, "a cancellation is not answered exactly once")
        if len(rc) != 1:
            return
        if when in ("after its end", "unknown id"):
            it.claim(err_is(it, rc[0], "CannotCancelTask"), f"cancelling {'an unknown call' if when == 'unknown id' else 'a finished call'} is not reported as an error (CannotCancelTask)")
            it.claim(not seen, "cancelling one call cancels another")
            return
        it.claim(is_msg(rc[0], "ResultMessage"), "a running call cannot be found by its message id")
        ra = by.get(it.fz(ma.attrs["message_id"]), [])
        it.claim(len(ra) == 1, "a cancelled call is not answered exactly once")
        it.claim(bool(by.get(it.fz(mb.attrs["message_id"]))) == when.startswith("after another") and all(o is act.made[0] for o, _ in seen), "cancelling one call cancels another")
        if when != "at the start":
            it.claim(len(seen) == 1 and seen[0][1] == "CancelledError", "the cancelled method is not cancelled")
        if ra and seen:
            if it.outcomes[-1].endswith("anyway"):
                it.claim(is_msg(ra[0], "ResultMessage"), "a method that completed although it was cancelled does not return its result")
            else:
                it.claim(err_is(it, ra[0], "CancelledError"), "the outcome of a cancelled call is not reported as cancelled")
    Sc(ctx, "server", f).run("cancelling a running call", go)

    def again(it):
        """a method that goes on although it was cancelled can be cancelled again"""
        p = make(it, kind, cls)
        plain_remote(it)
        gate = it.call(("ext", "asyncio.Event"), [], [])
        seen = []

        def receive(it, o, m):
            for n in range(2):
                try:
                    it.await_(it.call(it.attr(gate, "wait"), [], []))
                except Raised as x:
                    seen.append(cname(it.excval(x.value)))
                    if n:
                        raise
            return T("answer")
        ask(it, p, "create_actor", create_msg(it, actor_class(it, receive=receive), A, home))
        replies = []
        it.call(it.prog.module("backends.pool").defs["_register_message_handler"], [cls], [])
        ch = Stub("channel", {"local_address": "l", "dest_address": "d", "closed": False},
                  methods={"send": lambda it, a, k: Coro(lambda: replies.append(a[0]), "channel.send")})
        m = ref_msg(it, "SendMessage", A, home, content=Seq("tuple", [T("content", A)]))
        it.spawn(it.call(it.attr(p, "process_message"), [m, ch], []), "process")
        it.drain()
        for n in range(2):
            it.claim(len(replies) == n, "a call that goes on although it was cancelled is answered")
            cm = message(it, "CancelMessage", message_id=T("mid", "cancel", n), address=home, cancel_message_id=m.attrs["message_id"])
            it.spawn(it.call(it.attr(p, "process_message"), [cm, ch], []), "process")
            it.drain()
            rc = [r for r in replies if it.fz(r.attrs.get("message_id")) == T("mid", "cancel", n)]
            it.claim(len(rc) == 1 and is_msg(rc[0], "ResultMessage"), "a call that goes on although it was cancelled cannot be cancelled again")
        it.claim(seen == ["CancelledError"] * 2, "the cancelled method is not cancelled")
    Sc(ctx, "server", f).run("cancelling a call twice", again)


def _redirect(ctx, cls):
    def go(it):
        p = make(it, "main", cls)
        sent = []

        def call(it, a, k):
            def run():
                sent.append((a[1], a[2]))
                return message(it, "ResultMessage", message_id=a[2].attrs.get("message_id"), result=T("verdict"))
            return Coro(run, "call")
        it.stubs["AbstractActorPool.call"] = call
        cm = message(it, "CancelMessage", message_id=T("mid", "cancel"), address=SUB1, cancel_message_id=T("mid", "x"))
        st, v = ask(it, p, "cancel", cm)
        it.claim(len(sent) == 1 and sent[0][0] == SUB1 and is_msg(sent[0][1], "CancelMessage") and it.fz(sent[0][1].attrs.get("cancel_message_id")) == T("mid", "x"), "a cancellation for a sub pool is not passed on to it")
        it.claim(st == "ok" and is_msg(v, "ResultMessage") and freeze(v.attrs.get("result")) == T("verdict"), "the sub pool's answer to a cancellation is not returned")
    Sc(ctx, "redirect", ctx.method(cls, "cancel")).run("cancellation for a sub pool", go)

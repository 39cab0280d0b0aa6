"""C03: an error reply is raised in the caller, by abstract interpretation of every operation of a context with an error
at every one of the replies it waits for."""
from .client import *
from .copies import _world, view, file
from .processes import *

NAMES = ("ValueError", "ConnectionResetError", "ActorNotExist", "StopAsyncIteration", "CancelledError")


def raised(ctx: Ctx):
    cls = ctx.prog.module("backends.context").defs["IndigenActorContext"]
    msgs = ctx.prog.module("backends.message")
    for op, go in _ops(ctx).items():
        _op(ctx, cls, op, go)
    _copy(ctx, cls)
    _ucx(ctx, cls)
    _decorate(ctx, msgs)
    _through(ctx, cls)
    _wrap(ctx)


def _ops(ctx):
    r = lambda it, a=SUB1: ref(it, a, A)  # noqa: E731
    return {
        "create_actor": lambda it, c: c.op("create_actor", Stub("class"), uid=A, address=SUB1),
        "has_actor": lambda it, c: c.op("has_actor", r(it)),
        "destroy_actor": lambda it, c: c.op("destroy_actor", r(it)),
        "actor_ref": lambda it, c: c.op("actor_ref", r(it)),
        "kill_actor": lambda it, c: c.op("kill_actor", r(it)),
        "send": lambda it, c: c.op("send", r(it), Seq("tuple", ["m", 0, Seq("tuple", []), Dct([])])),
        "wait_actor_pool_recovered": lambda it, c: c.op("wait_actor_pool_recovered", SUB1),
        "get_pool_config": lambda it, c: c.op("get_pool_config", SUB1),
        "cancel": lambda it, c: c.op("cancel", SUB1, T("mid")),
    }


def mkerr(it, name):
    mod = it.prog.module("errors").defs
    return it.call(mod[name], ["x"], []) if name in mod else Exc(name, ["x"])


def answer_of(it, d):
    """what a healthy pool answers"""
    m = d["message"]
    if is_msg(m, "ControlMessage"):
        ct = it.attr(it.prog.module("backends.message").defs["ControlMessageType"], "get_config")
        return MAIN if m.attrs.get("control_message_type") is ct or it.fz(m.attrs.get("control_message_type")) == it.fz(ct) else True
    if is_msg(m, "ActorRefMessage") or is_msg(m, "CreateActorMessage"):
        return ref(it, SUB1, A)
    return T("value")


def _op(ctx, cls, op, start):
    f = ctx.method(cls, op)

    def go(it):
        nth = outcome(it, "reply that is an error", 0, 1, 2, None)
        name = outcome(it, "error", *NAMES) if nth is not None else None
        made = []

        def answer(d):
            if len(c.sent) - 1 == nth:
                e = mkerr(it, name)
                made.append(e)
                return message(it, "ErrorMessage", message_id=d["message"].attrs.get("message_id"), address="remote", pid=1, error_type=None, error=e, traceback=None)
            return c.ok(d, answer_of(it, d))
        c = Client(it, None)
        c.answer = answer
        it.stubs["core.create_local_actor_ref"] = lambda it, a, k: None
        it.stubs["_utils.create_actor_ref"] = lambda it, a, k: ref(it, SUB1, A)
        st, v = attempt(it, lambda: it.await_(start(it, c)))
        if made:
            it.claim(st == "raise", "an error reply is not raised in the caller")
            it.claim(st != "raise" or v is made[0] or name == "CancelledError" and cname(v) == name, "another error than the one answered is raised")
            it.claim(len(c.sent) == nth + 1, "an operation goes on after an error reply")
        else:
            it.claim(st == "ok", "an operation fails although every reply is a result")
    Sc(ctx, "error-is-raised", f).run(f"{op}: an error reply", go)


def _copy(ctx, cls):
    def go(it, kind):
        c, pending, p = _world(it, ctx, cls, 2, kind)
        it.stubs["ErrorMessage.as_instanceof_cause"] = lambda it, a, k: a[0].attrs["error"]
        rc = ctx.prog.module("core").defs["BufferRef" if kind == "buffers" else "FileObjectRef"]
        refs = Seq("list", [Obj(rc, {"address": SUB1, "uid": f"u{i}".encode()}) for i in range(2)])
        block = outcome(it, "block size", 2, 100)
        src = Seq("list", [view(f"source {i}", 0, 5) if kind == "buffers" else file(it, f"source {i}", 5, False) for i in range(2)])
        t = it.spawn(it.call(it.attr(c, "copy_to_buffers" if kind == "buffers" else "copy_to_fileobjs"), [src, refs, block], []), "copy")
        it.drain()
        bad = outcome(it, "block that fails", 0, 1, 2, 3, 4, 5)
        n, errs = 0, []
        while pending:
            m, f = pending.pop(0)
            if n == bad:
                e = mkerr(it, outcome(it, "error", "ValueError", "ConnectionResetError"))
                errs.append(e)
                it.finish(f, "done", message(it, "ErrorMessage", message_id=m.attrs["message_id"], address=SUB1, pid=1, error_type=None, error=e, traceback=None))
            else:
                it.finish(f, "done", message(it, "ResultMessage", message_id=m.attrs["message_id"], result=True))
            n += 1
            it.drain()
        if not t.done:
            it.claim(False, "a copy does not end")
            return
        st, v = attempt(it, lambda: it.await_(t))
        it.claim((st == "raise") == bool(errs), "an error reply is not raised in the caller" if errs else "a copy fails although every reply is a result")
        it.claim(not errs or st != "raise" or v is errs[0], "another error than the one answered is raised")
    for kind in ("buffers", "files"):
        f = ctx.method(cls, "copy_to_buffers" if kind == "buffers" else "copy_to_fileobjs")
        Sc(ctx, "error-is-raised", f).run(f"copying {kind}: an error reply", lambda it, kind=kind: go(it, kind))


def _ucx(ctx, cls):
    def go(it):
        c, pending, p = _world(it, ctx, cls, 1, "buffers", client="UCXClient")
        it.stubs["ErrorMessage.as_instanceof_cause"] = lambda it, a, k: a[0].attrs["error"]
        err = outcome(it, "answer", "result", "error") == "error"
        e = mkerr(it, "ValueError")

        def csb(it, a, k):
            m = a[2]

            def run():
                it.pause()
                if err:
                    return message(it, "ErrorMessage", message_id=m.attrs["message_id"], address=SUB1, pid=1, error_type=None, error=e, traceback=None)
                return message(it, "ResultMessage", message_id=m.attrs["message_id"], result=True)
            return Coro(run, "call_send_buffers")
        old = it.attr(c, "_caller")
        old.methods["call_send_buffers"] = csb
        rc = ctx.prog.module("core").defs["BufferRef"]
        refs = Seq("list", [Obj(rc, {"address": SUB1, "uid": b"u0"})])
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(c, "copy_to_buffers"), [Seq("list", [view("source 0", 0, 5)]), refs, None], [])))
        it.claim((st == "raise") == err, "an error reply is not raised in the caller" if err else "a copy fails although every reply is a result")
        it.claim(not err or v is e, "another error than the one answered is raised")
    Sc(ctx, "error-is-raised", ctx.method(cls, "copy_to_buffers")).run("copying over UCX: an error reply", go)


def _decorate(ctx, msgs):
    em = msgs.defs["ErrorMessage"]
    f = ctx.method(em, "as_instanceof_cause")

    def go(it):
        base = msgs.defs["_AsCauseBase"]
        kind = outcome(it, "error", "first hand", "passed on by another actor", "cancelled")
        tb = T("traceback")
        e = Exc("CancelledError" if kind == "cancelled" else "ValueError", ["x"])
        marks = []
        e.attrs = getattr(e, "attrs", None) or {}
        wrapped = []

        def wrap(it, a, k):
            d = dict(k)
            for n, v in zip(("exc", "bases", "wrap_name", "message", "traceback", "attr_dict"), a):
                d[n] = v
            wrapped.append(d)
            return Exc("ValueError", ["wrapped"])
        it.stubs["wrap_exception"] = wrap
        m = message(it, "ErrorMessage", message_id=T("m"), address="remote", pid=77, error_type=base if kind.startswith("passed") else it.exc_class("ValueError") if hasattr(it, "exc_class") else ("ext", "builtins.ValueError"), error=e, traceback=tb)
        st, v = attempt(it, lambda: it.call(it.attr(m, "as_instanceof_cause"), [], []))
        it.claim(st == "ok", "an error reply cannot be turned into its error")
        if st != "ok":
            return
        if kind.startswith("passed"):
            it.claim(v is e and freeze(it.attr(v, "__traceback__")) == tb, "an error passed on is not raised as it is, with its traceback")
        elif kind == "cancelled":
            it.claim(cname(v) == "CancelledError", "a remote cancellation is not raised as one")
        else:
            it.claim(len(wrapped) == 1, "an error is raised without being annotated")
            if len(wrapped) == 1:
                d = wrapped[0]
                it.claim(d.get("exc") is e, "another error is raised than the one answered")
                it.claim(freeze(d.get("traceback")) == tb, "the traceback of a remote error is lost")
                b = d.get("bases")
                it.claim(isinstance(b, Seq) and base in b.parts, "an annotated error is not marked as such")
                it.claim(isinstance(d.get("attr_dict"), Dct) and dget(d["attr_dict"], "address") == "remote" and dget(d["attr_dict"], "pid") == 77, "an error is raised without the address and process it comes from")
    Sc(ctx, "error-is-annotated", f).run("error of a reply", go)


def _through(ctx, cls):
    """cancelled or broken while waiting"""
    f = ctx.method(cls, "_wait")

    def go(it):
        c = Client(it, None)
        how = outcome(it, "the connection", "ServerClosed", "ConnectionResetError", "ValueError")
        t = it.spawn(c.op("send", ref(it, SUB1, A), Seq("tuple", ["m", 0, Seq("tuple", []), Dct([])])), "send")
        it.drain()
        it.claim(len(c.sent) == 1, "a call is not sent")
        if len(c.sent) != 1:
            return
        e = mkerr(it, how)
        it.finish(c.futs[it.fz(c.sent[0]["message"].attrs["message_id"])], "error", e)
        it.drain()
        it.claim(t.state == "error" and t.value is e, "an error of the connection is not raised in the caller")
    Sc(ctx, "error-is-raised", f).run("the connection fails while waiting", go)


def _wrap(ctx):
    f = ctx.prog.module("utils").defs["wrap_exception"]

    def go(it):
        old = Stub("class of the error", {"__name__": "ValueError", "__module__": "m"})
        e = Stub("error", {"__class__": old, "args": T("args"), "__cause__": T("cause"), "__context__": T("context"), "__suppress_context__": T("suppress"), "__traceback__": T("own traceback"), "code": T("code")})
        given = outcome(it, "traceback", "given", "none")
        base, given_tb, own_tb = Stub("marker"), Stub("traceback"), Stub("own traceback")
        e.attrs["__traceback__"] = own_tb
        made, tb = [], []

        def new(it, a, k):
            def ctor(it, x, y):
                o = Stub("new error", {}, {"with_traceback": lambda it, p, q: (tb.append(p[0]), o)[1]})
                made.append((a, o))
                return o
            return Native(ctor, "new class")
        it.stubs["type of three"] = new
        kw = [("message", "text"), ("attr_dict", Dct([("address", "remote"), ("pid", 7)]))]
        if given == "given":
            kw.append(("traceback", given_tb))
        st, v = attempt(it, lambda: it.call(f, [e, Seq("tuple", [base])], kw))
        it.claim(st == "ok" and len(made) == 1 and v is made[0][1], "an error cannot be annotated")
        if st != "ok" or len(made) != 1:
            return
        name, bases, d = made[0][0]
        it.claim(name == "ValueError", "an annotated error has another class name")
        b = list(it.iterate(bases))
        it.claim(any(x is base for x in b) and any(x is old for x in b), "an annotated error is no instance of the error's class and of the marker")
        it.claim(bool(tb) and tb[-1] is (given_tb if given == "given" else own_tb), "the traceback of a remote error is lost")
        for n, w in (("__cause__", T("cause")), ("__context__", T("context")), ("__suppress_context__", T("suppress")), ("args", T("args")), ("address", "remote"), ("pid", 7)):
            x = dget(d, n)
            it.claim(freeze(x) == w, f"an annotated error has lost its {n}")
        it.claim(dget(d, "__wrapped__") is e, "an annotated error has lost the error")
        g = dget(d, "__getattr__")
        st, x = attempt(it, lambda: it.call(g, [v, "code"], []))
        it.claim(st == "ok" and freeze(x) == T("code"), "an annotated error has lost the attributes of the error")
        st, x = attempt(it, lambda: it.call(dget(d, "__str__"), [v], []))
        it.claim(st == "ok" and x == "text", "an annotated error does not say where it comes from")
    Sc(ctx, "error-is-annotated", f).run("annotated error", go)

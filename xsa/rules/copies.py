"""C18: copying to remote buffers and files, by abstract interpretation of sender and receiver together: contents are
symbolic views (source, offset, length), lengths, block sizes, short reads, errors and reply times are nondeterministic."""
from .client import *
from .contexts import V
from ..machine import Fut
from ..shapes import Bound


def copies(ctx: Ctx):
    cx = ctx.prog.module("backends.context").defs["IndigenActorContext"]
    _blocks(ctx, cx)
    _clients(ctx, cx)
    _ucx(ctx, cx)
    _refs(ctx)


def view(base, off, n):
    """part of a source: n elements from offset off"""
    def item(it, a, k):
        lo, hi = getattr(a[0], "a", None), getattr(a[0], "b", None)
        if not hasattr(a[0], "a") or getattr(a[0], "c", None) not in (None, 1):
            raise Raised(Exc("TypeError", ["index"]))
        s = slice(lo, hi).indices(n)
        return view(base, off + s[0], max(0, s[1] - s[0]))
    v = Stub(f"{base}[{off}:{off + n}]", methods={"__len__": lambda it, a, k: n, "__getitem__": item}, kind=("memoryview",))
    v.attrs["nbytes"] = n
    v.attrs["size"] = n
    v.at = (base, off, n)
    return v


class Dest:
    """a buffer or file of the other side: what has been put where"""

    def __init__(self, name, n):
        self.name, self.n, self.got, self.bad = name, n, [], None

        def put(it, a, k):
            s, v = a
            if not isinstance(v, Stub) or not hasattr(v, "at"):
                self.bad = "something else than a part of a source is put into a buffer"
                return
            r = slice(s.a, s.b).indices(self.n) if hasattr(s, "a") else (0, 0, 1)
            if max(0, r[1] - r[0]) != v.at[2]:
                self.bad = "a part is put into a place of another size"
            elif v.at[2]:
                self.got.append((r[0], v.at))

        def write(it, a, k):
            def go():
                at = sum(x[1][2] for x in self.got)
                self.got.append((at, a[0].at))
                return a[0].at[2]
            return Coro(go, "write")
        self.stub = Stub(name, methods={"__setitem__": put, "write": write, "__len__": lambda it, a, k: n})

    def check(self, it, src, n):
        it.claim(self.bad is None, self.bad or "")
        at = 0
        for where, (base, off, k) in sorted(self.got, key=lambda x: x[0]):
            it.claim(base == src, "a part of one source is put into the destination of another")
            it.claim(where == off, "a part is put at another offset than it has in the source")
            it.claim(where >= at, "a part is put twice")
            it.claim(where <= at, "a part of the source is not copied")
            at = where + k
        it.claim(at == n, "the end of the source is not copied" if at < n else "more is copied than the source has")


def file(it, name, n, short):
    """a local file of n bytes; reads give what is asked for, or less"""
    pos, reads = [0], [0]

    def read(it, a, k):
        want = a[0] if a else -1

        def go():
            left = n - pos[0]
            m = left if want is None or want < 0 else min(want, left)
            if m > 1 and short:  # two bytes, one byte, two bytes ...
                m = min(m, 2 - reads[0] % 2)
            reads[0] += 1
            v = view(name, pos[0], m) if m else b""
            pos[0] += m
            return v
        return Coro(go, "read")
    return Stub(name, methods={"read": read})


def _world(it, ctx, cx, n_dest, kind, client="SocketClient"):
    """sender and receiver: (context, messages not answered yet, destinations, answer)"""
    c = Client(it)
    it.stubs["Router.get_instance"] = lambda it, a, k: Stub("router", methods={"get_proxy": lambda it, a, k: None, "get_proxies": lambda it, a, k: None, "get_all_client_types": lambda it, a, k: Seq("list", [])})
    to = Stub("client", {"dest_address": SUB1}, kind=client)
    pending = []

    def get_client(it, a, k):
        it.claim(a[1] == SUB1, "the copy goes to another address")
        return Coro(lambda: to, "get_client")

    def call(it, a, k):
        wait = dict(k).get("wait", a[2] if len(a) > 2 else True)

        def run():
            it.claim(a[0] is to, "the copy goes to another client")
            f = Fut("reply")
            pending.append((a[1], f))
            return it.await_(f) if wait else f
        return Coro(run, "call_with_client")
    it.stubs["backends.core.ActorCaller"] = lambda it, a, k: Stub("caller", methods={"get_client": get_client, "call_with_client": call})
    ctxo = it.call(cx, ["self:1"], [])
    p = pool(it, sub_pool(ctx), addr=SUB1, index=101, main_address=MAIN, main_pool_pid=None)
    return ctxo, pending, p


def _blocks(ctx, cx):
    handler = {"buffers": "handle_copy_to_buffers_message", "files": "handle_copy_to_fileobjs_message"}
    rm = ctx.prog.module("core").defs

    def go(it, kind, n):
        sizes = [outcome(it, f"length {i}", *((0, 1, 2, 3, 5, 8) if n == 1 else (0, 1, 2, 4))) for i in range(n)]
        block = outcome(it, "block size", 2, 3, None)
        fail = outcome(it, "block that fails", None, 0, 1) if n < 3 else None
        c, pending, p = _world(it, ctx, cx, n, kind)
        dests = [Dest(f"dest {i}", sizes[i]) for i in range(n)]
        rc = rm["BufferRef" if kind == "buffers" else "FileObjectRef"]
        refs = Seq("list", [Obj(rc, {"address": SUB1, "uid": f"u{i}".encode()}) for i in range(n)])

        def found(it, a, k):
            r = a[-1]
            i = int(r.attrs["uid"][1:])
            it.claim(r.attrs["address"] == SUB1, "a destination is looked for at another address")
            return dests[i].stub
        it.stubs["BufferRef.get_buffer"] = it.stubs["FileObjectRef.get_local_file_object"] = found
        if kind == "buffers":
            src = Seq("list", [view(f"source {i}", 0, sizes[i]) for i in range(n)])
            op = "copy_to_buffers"
        else:
            short = outcome(it, "reads give", "what is asked", "less") == "less"
            src = Seq("list", [file(it, f"source {i}", sizes[i], short) for i in range(n)])
            op = "copy_to_fileobjs"
        t = it.spawn(it.call(it.attr(c, op), [src, refs, block], []), "copy")
        it.drain()
        nth, failed = 0, False
        while pending:
            if t.done:
                it.claim(failed, "the copy ends before the other side has confirmed every block")
                break
            it.claim(kind == "buffers" or len(pending) == 1, "parts of a file are sent before the ones before them are confirmed")
            m, f = pending.pop(0)
            it.claim(is_msg(m, "CopyToBuffersMessage" if kind == "buffers" else "CopyToFileObjectsMessage"), "another message than a copy is sent")
            if nth == fail:
                failed = True
                it.finish(f, "done", message(it, "ErrorMessage", message_id=m.attrs["message_id"], address=SUB1, pid=1, error_type=None, error=it.call(it.prog.module("errors").defs["ServerClosed"], ["x"], []), traceback=None))
            else:
                had = sum(x[1][2] for d in dests for x in d.got)
                r = it.await_(it.call(it.attr(p, handler[kind]), [m], []))
                parts = sum(list(it.iterate(x))[-1].at[2] for x in it.iterate(m.attrs["content"]))
                it.claim(sum(x[1][2] for d in dests for x in d.got) == had + parts, "a block is confirmed before it is in its place")
                it.claim(is_msg(r, "ResultMessage") and it.fz(r.attrs["message_id"]) == it.fz(m.attrs["message_id"]), "a block is confirmed by another message")
                it.finish(f, "done", r)
            nth += 1
            it.drain()
            it.claim(not failed or kind == "buffers" or not pending, "the copy goes on after a block has failed")
        it.claim(t.done, "the copy does not end")
        st, v = attempt(it, lambda: it.await_(t)) if t.done else ("pending", None)
        it.claim((st == "raise") == failed, "an error of the other side is not raised" if failed else "a copy fails although every block was confirmed")
        if not failed:
            for i, d in enumerate(dests):
                d.check(it, f"source {i}", sizes[i])
    for kind in ("buffers", "files"):
        f = ctx.method(cx, "copy_to_buffers" if kind == "buffers" else "copy_to_fileobjs")
        for n in ctx.more((1, 2, 3), (1, 2, 3, 4)):
            Sc(ctx, "blocks", f).run(f"copying {n} {kind}", lambda it, kind=kind, n=n: go(it, kind, n), max_paths=40000)


def _clients(ctx, cx):
    def go(it):
        c, pending, p = _world(it, ctx, cx, 1, "buffers")
        inst = outcome(it, "pool", "inside", "outside")
        proxy = outcome(it, "proxy", True, False)
        first = outcome(it, "client", "local", "fast", "plain")
        has = outcome(it, "fast client type", True, False)
        kinds = {"local": "DummyClient", "fast": "UCXClient", "plain": "SocketClient"}
        send = {"send_buffers": lambda it, a, k: None}
        to = Stub("client", methods=send if first == "fast" else {}, kind=kinds[first])
        fast = Stub("fast client", methods=send, kind="UCXClient")
        plain_t, fast_t = Stub("SocketClient"), Stub("UCXClient", methods=send)
        types = Seq("list", [plain_t] + ([fast_t] if has else []))
        router = Stub("router", methods={"get_proxy": lambda it, a, k: "proxy:1" if proxy else None, "get_all_client_types": lambda it, a, k: types})
        it.stubs["Router.get_instance"] = lambda it, a, k: router if inst == "inside" else None
        by = []

        def via(it, a, k):
            by.append(a[2])
            return Coro(lambda: fast, "get_client_via_type")
        caller = Stub("caller", methods={"get_client": lambda it, a, k: Coro(lambda: to, "get_client"), "get_client_via_type": via})
        it.stubs["backends.core.ActorCaller"] = lambda it, a, k: caller
        c = it.call(cx, ["self:1"], [])
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(c, "_get_client"), [SUB1], [])))
        if inst == "outside" or proxy:
            it.claim(st == "raise", "a copy that would not reach its destination is not refused")
            return
        it.claim(st == "ok", "a copy that can be done is refused")
        want = fast if first == "plain" and has else to
        it.claim(v is want and all(x is fast_t for x in by), "a copy is not sent over the fastest connection there is")
    Sc(ctx, "connection", ctx.method(cx, "_get_client")).run("client of a copy", go)


def _ucx(ctx, cx):
    ucx = ctx.prog.module("backends.communication.ucx").defs["UCXChannel"]

    def send(it):
        c, pending, p = _world(it, ctx, cx, 2, "buffers", client="UCXClient")
        log = []

        def csb(it, a, k):
            wait = dict(k).get("wait", a[3] if len(a) > 3 else True)

            def run():
                f = Fut("reply")
                log.append((a, f))
                return it.await_(f) if wait else f
            return Coro(run, "call_send_buffers")
        to = Stub("client", methods={"send_buffers": lambda it, a, k: None}, kind="UCXClient")
        it.stubs["backends.core.ActorCaller"] = lambda it, a, k: Stub("caller", methods={"get_client": lambda it, a, k: Coro(lambda: to, "get_client"), "call_send_buffers": csb})
        c = it.call(cx, ["self:1"], [])
        rc = it.prog.module("core").defs["BufferRef"]
        refs = Seq("list", [Obj(rc, {"address": SUB1, "uid": f"u{i}".encode()}) for i in range(2)])
        bufs = [V("buffer 0"), V("buffer 1")]
        t = it.spawn(it.call(it.attr(c, "copy_to_buffers"), [Seq("list", list(bufs)), refs], []), "copy")
        it.drain()
        it.claim(len(log) == 1 and not t.done, "the copy ends before the other side has confirmed it")
        if len(log) != 1:
            return
        a, f = log[0]
        it.claim(list(it.iterate(a[1])) == bufs, "other buffers are sent than given")
        m = a[2]
        it.claim(is_msg(m, "ControlMessage") and "switch_to_copy_to" in str(m.attrs["control_message_type"]), "buffers are not announced")
        # the other side
        got, sent, there = [], [], Fut("data")

        def recv(it, a, k):
            def go():
                it.await_(there)
                got.append(list(it.iterate(a[0])))
            return Coro(go, "recv_buffers")
        ch = Stub("channel", {"closed": False}, methods={"recv_buffers": recv, "send": lambda it, a, k: Coro(lambda: sent.append(a[0]), "send")}, kind="UCXChannel")
        dests = {b"u0": V("dest 0"), b"u1": V("dest 1")}
        it.stubs["BufferRef.get_buffer"] = lambda it, a, k: dests[a[-1].attrs["uid"]]
        t2 = it.spawn(it.call(it.attr(p, "_handle_ucx_meta_message"), [m, ch], []), "receive")
        it.drain()
        it.claim(not sent, "a block is confirmed before it is in its place")
        it.claim(not t2.done, "the next message of the connection is read before the announced buffers")
        it.finish(there, "done", None)
        it.drain()
        r = it.await_(t2)
        it.drain()
        it.claim(r is True, "announced buffers are not taken for such")
        it.claim(got == [[dests[b"u0"], dests[b"u1"]]], "buffers are not received into their destinations, in order")
        it.claim(len(sent) == 1 and is_msg(sent[0], "ResultMessage") and it.fz(sent[0].attrs["message_id"]) == it.fz(m.attrs["message_id"]), "announced buffers are not confirmed")
        res = outcome(it, "answer", "result", "error")
        x = sent[0] if res == "result" and sent else message(it, "ErrorMessage", message_id=m.attrs["message_id"], address=SUB1, pid=1, error_type=None, error=it.call(it.prog.module("errors").defs["ServerClosed"], ["x"], []), traceback=None)
        it.finish(f, "done", x)
        it.drain()
        st, v = attempt(it, lambda: it.await_(t))
        it.claim((st == "ok") == (res == "result"), "an error of the other side is not raised")
        # other messages are left to the pool
        other = message(it, "HasActorMessage", message_id=b"m", actor_ref=ref(it, SUB1, A))
        it.claim(it.await_(it.call(it.attr(p, "_handle_ucx_meta_message"), [other, ch], [])) is False, "another message is taken for announced buffers")
    Sc(ctx, "ucx", ctx.method(cx, "copy_to_buffers")).run("copying buffers over ucx", send)

    def channel(it):
        out, into = [], []
        fail = outcome(it, "connection", "works", "breaks")

        def op(log):
            def fn(it, a, k):
                def go():
                    if fail == "breaks" and len(log) == 1:
                        it.raise_("ConnectionResetError", "x")
                    log.append(a[0])
                return Coro(go, "ucp")
            return fn
        ep = Stub("endpoint", methods={"send": op(out), "recv": op(into), "abort": lambda it, a, k: None})
        lock = lambda: Stub("lock", methods={"__aenter__": lambda it, a, k: Coro(lambda: None, "lock"), "__aexit__": lambda it, a, k: Coro(lambda: None, "unlock")})
        o = Obj(ucx, {"ucp_endpoint": ep, "_send_lock": lock(), "_recv_lock": lock(), "_closed": False, "compression": None, "_has_close_callback": True})
        it.stubs["is_cuda_buffer"] = lambda it, a, k: False
        it.stubs["UCXChannel._serialize"] = lambda it, a, k: Coro(lambda: Seq("list", [T("meta", 0), T("meta", 1)]), "serialize")
        b = [V("buffer 0"), V("buffer 1")]
        st, v = attempt(it, lambda: it.await_(it.call(Bound(ucx.methods["send_buffers"], o, ucx), [Seq("list", list(b)), V("meta")], [])))
        if fail == "works":
            it.claim(st == "ok" and [str(it.fz(x)) for x in out] == [str(it.fz(x)) for x in (T("meta", 0), T("meta", 1), *b)], "the announcement and the buffers are not sent in order")
        else:
            it.claim(st == "raise", "a failed copy ends as if it was done")
        st, v = attempt(it, lambda: it.await_(it.call(Bound(ucx.methods["recv_buffers"], o, ucx), [Seq("list", list(b))], [])))
        if fail == "works":
            it.claim(st == "ok" and into == b, "buffers are not received in order")
        else:
            it.claim(st == "raise", "a failed copy is taken for done")
    Sc(ctx, "ucx", ucx.methods["send_buffers"]).run("buffers of a ucx channel", channel)


def _refs(ctx):
    core = ctx.prog.module("core")
    for cn, reg, get in (("BufferRef", "_ref_to_buffers", "get_buffer"), ("FileObjectRef", "_ref_to_fileobjs", "get_local_file_object")):
        cls = core.defs[cn]

        def go(it, cls=cls, reg=reg, get=get):
            it.clskeep[(cls.qual, reg)] = it.clsattrs[(cls.qual, reg)] = Dct()
            other = outcome(it, "other destination", "address", "id")
            x, y = V("buffer 0"), V("buffer 1")
            mk = lambda b, a, u: it.call(it.attr(cls, "create"), [b, a, u], [])
            r = mk(x, SUB1, b"u0")
            s = mk(y, SUB2 if other == "address" else SUB1, b"u0" if other == "address" else b"u1")
            it.claim((r.attrs["address"], r.attrs["uid"]) == (SUB1, b"u0"), "a reference names another destination than given")
            g = lambda a, u: it.call(it.attr(cls, get), [it.call(cls, [a, u], [])], [])
            it.claim(g(SUB1, b"u0") is x and g(s.attrs["address"], s.attrs["uid"]) is y, "a destination is not found by its reference")
            st, v = attempt(it, lambda: g(SUB2, b"u9"))
            it.claim(st == "raise", "an unknown destination is taken for another one")
        Sc(ctx, "references", cls.methods["create"]).run(f"{cn}: naming destinations", go)

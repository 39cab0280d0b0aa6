"""C06/C02: the channels of every backend under concurrent, failing and cancelled use, by abstract interpretation
over a transport of the environment that records what is written and hands out what is to be read."""
from ..machine import Stub, Coro
from ..shapes import Raised, Seq, Dct, freeze
from .results import exc
from .stopping import nap
from .records import *

COMM = "backends.communication"
PARTS = 3


class Wire2:
    """What was written, and what is to be read, part by part."""

    def __init__(self, it, kind):
        self.it, self.kind = it, kind
        self.log, self.stream, self.fail = [], [], None
        self.closing, self.size = False, 10
        mod = it.prog.module(f"{COMM}.socket" if kind == "SocketChannel" else f"{COMM}.ucx")
        self.cls = mod.defs[kind]
        self.serial = {}

        def ser(it, a, k):
            m = freeze(a[0])

            def go():
                d, e = self.serial.get(m, (0, None))
                if d:
                    nap(it, d)
                if e:
                    it.raise_(e, m)
                return Seq("list", [self.part(f"{m}/{i}") for i in range(PARTS)])
            return go
        made = {}

        def new(it, a, k):
            s = Stub("serializer", {}, {"run": lambda it, b, kk: Coro(ser(it, a, k), "serialize"), "_get_buffers": lambda it, b, kk: Coro(ser(it, a, k), "serialize")})
            return s
        it.stubs["AioSerializer"] = it.stubs["serialization.aio.AioSerializer"] = new
        it.stubs["is_cuda_buffer"] = lambda it, a, k: False
        it.stubs["get_header_length"] = lambda it, a, k: 7
        it.stubs["cloudpickle.loads"] = lambda it, a, k: self.header(a[0])
        it.stubs["deserialize"] = lambda it, a, k: Seq("tuple", [a[0], a[1]])
        it.stubs["numpy.empty"] = lambda it, a, k: self.buffer(a[0])
        it.stubs["hasattr"] = None
        del it.stubs["hasattr"]
        if kind == "SocketChannel":
            self.writer = Stub("writer", {}, {"write": self.write, "writelines": self.writelines, "drain": self.drain, "is_closing": lambda it, a, k: self.closing,
                                              "close": self.close, "wait_closed": lambda it, a, k: Coro(lambda: None, "wait_closed")})
            self.reader = Stub("reader", {}, {"readexactly": self.read, "at_eof": lambda it, a, k: not self.stream})
            self.chan = it.call(self.cls, [self.reader, self.writer], [])
        else:
            err = Stub("ucp.exceptions", {"UCXError": exc("UCXError") if False else ("ext", "UCXError")})
            it.mods[(mod.name, "ucp")] = Stub("ucp", {"exceptions": err})
            self.end = Stub("endpoint", {}, {"send": self.send1, "recv": self.recv1, "abort": self.close, "close": lambda it, a, k: Coro(lambda: self.close(it, a, k), "close"),
                                             "set_close_callback": lambda it, a, k: None})
            self.chan = it.call(self.cls, [self.end], [])

    def part(self, name):
        n = self.size
        return Stub(name, {"nbytes": n, "itemsize": 1, "size": n, "__class__": ("builtin", "bytes")}, {"__len__": lambda it, a, k: n}, kind=("bytes",))

    # -- writing
    def out(self, it, p):
        if self.closing:
            it.raise_("RuntimeError" if self.kind == "SocketChannel" else "UCXError", "closed")
        if self.fail:
            it.raise_(self.fail, "transport")
        self.log.append(p.label if isinstance(p, Stub) else freeze(p))

    def write(self, it, a, k):
        self.out(it, a[0])

    def writelines(self, it, a, k):
        for p in it.iterate(a[0]):
            self.out(it, p)

    def drain(self, it, a, k):
        def go():
            nap(it, 1)
            if self.closing:
                it.raise_("RuntimeError", "closed")
            if self.fail:
                it.raise_(self.fail, "transport")
        return Coro(go, "drain")

    def send1(self, it, a, k):
        def go():
            self.out(it, a[0])
            nap(it, 1)
        return Coro(go, "endpoint.send")

    def close(self, it, a, k):
        self.closing = True

    def frames(self):
        """messages written whole, and whether the rest of the log is broken"""
        got, i = [], 0
        while i < len(self.log):
            m = str(self.log[i]).split("/")[0]
            if self.log[i:i + PARTS] != [f"{m}/{j}" for j in range(PARTS)]:
                return got, self.log[i:]
            got.append(m)
            i += PARTS
        return got, []

    # -- reading
    def feed(self, *names):
        for n in names:
            self.stream += [(n, 11), (n, 7)] + [(n, 2), (n, 3)]

    def next(self, it, n):
        nap(it, 1)
        if not self.stream:
            it.raise_("EOFError" if self.kind == "UCXChannel" else "IncompleteReadError", "end of the stream")
        m, size = self.stream.pop(0)
        if n != size:
            it.claim(False, "two receivers can interleave their reads of one frame")
        return m

    def read(self, it, a, k):
        n = a[0]

        def go():
            m = self.next(it, n)
            return m.encode() + bytes(n - len(m))
        return Coro(go, "read")

    def buffer(self, n):
        b = Stub("array", {"n": n, "value": None})
        v = Stub("memory", {"n": n, "of": b, "nbytes": n})
        b.attrs["data"] = v
        return b

    def recv1(self, it, a, k):
        b = a[0]

        def go():
            b.attrs["value"] = self.next(it, b.attrs["n"])
        return Coro(go, "endpoint.recv")

    @staticmethod
    def named(b):
        if isinstance(b, Stub):
            return b.attrs["value"]
        return b.rstrip(b"\0").decode() if isinstance(b, bytes) else None

    def header(self, b):
        return Seq("list", [Dct([("is_cuda_buffers", Seq("list", [False, False])), ("buf_sizes", Seq("list", [2, 3])), ("of", self.named(b))])])

    def whole(self, v):
        """the message a received value is, when all parts are of the same"""
        h, bs = v.parts
        n = dget(h.parts[0], "of")
        return n if [self.named(b) for b in bs.parts] == [n, n] else None


def _kind(it):
    return Wire2(it, outcome(it, "channel", "SocketChannel", "UCXChannel"))


def channels(ctx):
    sock = ctx.cls(f"{COMM}.socket", "SocketChannel")
    ucx = ctx.cls(f"{COMM}.ucx", "UCXChannel")
    for m in ("socket", "ucx", "utils", "dummy", "base"):
        ctx.modules.add(ctx.prog.module(f"{COMM}.{m}").rel)
    fs, fr = ctx.method(sock, "send"), ctx.method(sock, "recv")

    def go(w, m, how="send"):
        it = w.it
        if how == "send":
            return it.spawn(it.call(it.attr(w.chan, "send"), [m], []), m)
        if how == "buffers":
            return it.spawn(it.call(it.attr(w.chan, "send_buffers"), [Seq("list", [w.part(f"{m}/{i}") for i in range(PARTS)])], []), m)
        return it.spawn(it.call(it.attr(w.chan, "send_buffers"), [Seq("list", [w.part(f"{m}/{i}") for i in range(1, PARTS)])], [("meta", Meta(m))]), m)

    def sends(it):
        w = _kind(it)
        n, w.size = 3, outcome(it, "size of a buffer", 10, 1 << 40)
        for i in range(n):
            w.serial[f"m{i}"] = (outcome(it, f"serializing message {i}", 0, 1, 2), None)
        ts = [go(w, f"m{i}", outcome(it, f"message {i}", "send", "buffers") if w.kind == "UCXChannel" else "send") for i in range(n)]
        nap(it, 40)
        got, rest = w.frames()
        it.claim(all(t.state == "done" for t in ts), "a send over a working connection does not end")
        it.claim(not rest, "another sender can write between two parts of a frame")
        it.claim(sorted(got) == [f"m{i}" for i in range(n)], "a message is lost or sent twice")
    Sc(ctx, "frame-contiguous", fs).run("concurrent sends", sends, max_paths=1500)

    def unserializable(it):
        w = _kind(it)
        e = outcome(it, "serializing fails with", "TypeError", "PicklingError", "CancelledError", "MemoryError")
        w.serial["m0"] = (outcome(it, "after", 0, 1), e)
        w.serial["m1"] = (outcome(it, "serializing the other", 0, 2), None)
        t0, t1 = go(w, "m0"), go(w, "m1")
        nap(it, 20)
        it.claim(t0.state in ("error", "cancelled"), "a message that cannot be serialized is not reported to its sender")
        got, rest = w.frames()
        it.claim(not rest, "part of a frame is written although its message cannot be serialized")
        it.claim(got == ["m1"] and t1.state == "done", "a message that cannot be serialized breaks the sends of others")
        t2 = go(w, "m2")
        nap(it, 20)
        it.claim(t2.state == "done" and w.frames() == (["m1", "m2"], []), "after a message that cannot be serialized the connection cannot be used")
    Sc(ctx, "serialized-first", fs).run("a message that cannot be serialized", unserializable)

    def cancelled(it):
        w = _kind(it)
        w.serial["m0"] = (1, None)
        at = outcome(it, "cancelled after", 0.5, 1.5, 2.5, 3.5)
        t0 = go(w, "m0")
        t1 = go(w, "m1") if outcome(it, "another send", "at the same time", "later") == "at the same time" else None
        nap(it, at)
        it.task_cancel(t0)
        nap(it, 10)
        t1 = t1 or go(w, "m1")
        nap(it, 20)
        it.claim(t0.done and t1.done, "a send does not end")
        got, rest = w.frames()
        broken = bool(rest) and bool(got[len(got):] or [x for x in w.log if str(x).startswith("m1")])
        part = [x for x in w.log if str(x).startswith("m0")]
        if len(part) % PARTS:
            i = max(j for j, x in enumerate(w.log) if str(x).startswith("m0"))
            it.claim(i == len(w.log) - 1 and w.closing, "a send cancelled in the middle of its frame leaves the connection open: what follows is read as the rest of that frame")
        else:
            it.claim(not rest, "another sender can write between two parts of a frame")
            it.claim(t1.state == "done" and "m1" in got or w.closing, "a cancelled send breaks the sends of others")
    Sc(ctx, "cancelled-send", fs).run("a send that is cancelled", cancelled)

    def failing(it):
        w = _kind(it)
        when = outcome(it, "the transport", "is closed before", "fails", "is closed while sending", "fails while sending")
        e = "UCXError" if w.kind == "UCXChannel" else outcome(it, "error", "ConnectionResetError", "BrokenPipeError", "RuntimeError")
        if when == "is closed before":
            it.await_(it.call(it.attr(w.chan, "close"), [], []))
            it.claim(it.truth(it.attr(w.chan, "closed")) is True, "a closed channel does not say so")
        elif when == "fails":
            w.fail = e
        w.serial["m0"] = (1, None)
        t = go(w, "m0")
        if when.endswith("while sending"):
            nap(it, outcome(it, "at", 0.5, 1.5))
            if when.startswith("is"):
                it.await_(it.call(it.attr(w.chan, "close"), [], []))
            else:
                w.fail = e
        nap(it, 20)
        it.claim(t.done, "a send over a broken connection never ends")
        it.claim(t.state == "error", "a message that cannot be sent is not reported to its sender")
        if t.state == "error" and when == "is closed before":
            it.claim(err_is(it, t.value, "ChannelClosed"), "sending over a closed channel does not say that it is closed")
    Sc(ctx, "send-fails", fs).run("a transport that fails", failing)

    def recvs(it):
        w = _kind(it)
        n = ctx.more(3, 5)
        w.feed(*[f"f{i}" for i in range(n)])
        ts = [it.spawn(it.call(it.attr(w.chan, "recv"), [], []), f"r{i}") for i in range(n)]
        nap(it, 40)
        it.claim(all(t.state == "done" for t in ts), "a message that has arrived is not received")
        if all(t.state == "done" for t in ts):
            it.claim(sorted(w.whole(t.value) or "" for t in ts) == [f"f{i}" for i in range(n)], "two receivers can interleave their reads of one frame")
            it.claim([w.whole(t.value) for t in ts] == [f"f{i}" for i in range(n)], "messages are received in another order than they were sent")
    Sc(ctx, "frame-read-whole", fr).run("concurrent receivers", recvs)

    def ends(it):
        w = _kind(it)
        w.feed("f0", "f1")
        cut = outcome(it, "the stream ends after", 0, 1, 2, 3, 4, 5, 7)
        del w.stream[cut:]
        rs = []
        for i in range(2):
            t = it.spawn(it.call(it.attr(w.chan, "recv"), [], []), f"r{i}")
            nap(it, 10)
            rs.append(t)
        n = cut // 4
        it.claim(all(t.done for t in rs), "a receiver waits on a connection that has ended")
        for i, t in enumerate(rs):
            if i < n:
                it.claim(t.state == "done" and w.whole(t.value) == f"f{i}", "a message that arrived whole is not received")
            else:
                it.claim(t.state == "error", "a frame that is cut off is received as a message")
                if t.state == "error" and i == n:
                    it.claim(any(err_is(it, t.value, x) for x in ("EOFError", "ConnectionError", "ChannelClosed", "IncompleteReadError")), "the end of a connection is not reported as such")
    Sc(ctx, "frame-cut", fr).run("a connection that ends", ends)
    local(ctx)


class Meta(Stub):
    def __init__(self, m):
        super().__init__("meta")


def device(ctx):
    """buffers of a device go through the host, part by part"""
    mod = ctx.prog.module(f"{COMM}.utils")
    wr, rd = mod.defs["write_buffers"], mod.defs["read_buffers"]
    CH = 4

    def go(it):
        it.mods[(mod.name, "CUDA_CHUNK_SIZE")] = CH
        mem, seq = {}, [0]

        def array(at, n):
            """a one-dimensional array of bytes over memory of the device"""
            def part(i):
                it.claim(i.c in (None, 1), "another part of a device buffer is meant")
                return range(n)[slice(i.a, i.b)]

            def get(it, a, k):
                r = part(a[0])

                def host(it, b, kk):
                    v = mem[at][r.start:r.stop] if len(r) else []
                    it.claim(None not in v, "memory of the device is read before it is written")
                    v = bytes(x or 0 for x in v)
                    return Stub("host array", {"data": v, "nbytes": len(v)}, {"tobytes": lambda it, x, y: v})
                return Stub("part", {"nbytes": len(r)}, {"get": host, "set": lambda it, b, kk: put(r, b[0])})

            def put(r, v):
                v = v.attrs["data"] if isinstance(v, Stub) else v
                it.claim(len(v) == len(r), "a part of another length is put into a device buffer")
                mem[at][r.start:r.start + len(v)] = list(v)
            return Stub("device array", {"nbytes": n, "size": n, "__cuda_array_interface__": Dct([("data", Seq("tuple", [at, False]))])},
                        {"__getitem__": get, "__setitem__": lambda it, a, k: put(part(a[0]), a[1]), "__len__": lambda it, a, k: n}, "ndarray")

        def alloc(v):
            seq[0] += 1
            mem[seq[0]] = list(v)
            return seq[0]

        def rmm(at, n):
            return Stub("device buffer", {"nbytes": n, "size": n, "__cuda_array_interface__": Dct([("data", Seq("tuple", [at, False]))])}, {}, "DeviceBuffer")
        it.mods[(mod.name, "cupy")] = Stub("cupy", {"ndarray": Native(lambda it, a, k: array(dict(k)["memptr"], dict(k)["shape"]), "ndarray"), "cuda": Stub("cupy.cuda", {}, {
            "UnownedMemory": lambda it, a, k: (a[0], a[1]), "MemoryPointer": lambda it, a, k: a[0][0] if a[1] == 0 else None})})
        news = []

        def new(it, a, k):
            n = a[0] if a else dict(k)["size"]
            b = rmm(alloc([None] * n), n)
            news.append(b)
            return b
        it.mods[(mod.name, "rmm")] = Stub("rmm", {}, {"DeviceBuffer": new})
        it.stubs["isinstance"] = lambda it, a, k: isinstance(a[0], Stub) and a[0].kind == "ndarray"
        it.stubs["numpy.frombuffer"] = lambda it, a, k: a[0]
        mix = outcome(it, "buffers", "dhd", "dd", "hd", "d", "h")
        sizes = [outcome(it, f"size {i}", *(([0, 1, CH - 1, CH, CH + 1, 2 * CH, 2 * CH + 1, 3 * CH - 1] if i == 0 else [0, 3, CH + 2]) if c == "d" else [0, 5])) for i, c in enumerate(mix)]
        want = [bytes((7 * i + j) % 251 + 1 for j in range(n)) for i, n in enumerate(sizes)]
        bufs = []
        for c, v in zip(mix, want):
            kind = outcome(it, "device buffer", "rmm", "cupy") if c == "d" and not bufs else "cupy"
            bufs.append(v if c == "h" else array(alloc(v), len(v)) if kind == "cupy" else rmm(alloc(v), len(v)))
        stream = []
        w = Stub("writer", {}, {"write": lambda it, a, k: (stream.append(bytes(a[0])), len(stream) > 40 and (it.claim(False, "a buffer is written without end"), it.raise_("OSError")))[0] if isinstance(a[0], (bytes, bytearray)) else it.claim(False, "something else than bytes is written")})
        w.methods["drain"] = lambda it, a, k: Coro(lambda: None, "drain")

        def write():
            r = it.call(wr, [w, Seq("list", list(bufs))], [])
            return it.await_(r) if isinstance(r, Coro) else r
        st, v = attempt(it, write)
        it.claim(st == "ok", f"device buffers cannot be written ({cname(v) or v})")
        it.claim(b"".join(stream) == b"".join(want), "what is written is not the content of the buffers")
        it.claim(all(len(x) <= CH for x in stream if "h" not in mix), "more of a device buffer than a part is copied at once")
        left = bytearray(b"".join(want))

        def read(it, a, k):
            n = a[0]
            it.claim(len(left) >= n, "more is read than was written")
            x = bytes(left[:n])
            del left[:n]

            def run():
                nap(it, 0.1)
                return x
            return Coro(run, "read")
        hd = Dct([("is_cuda_buffers", Seq("list", [c == "d" for c in mix])), (it.attr(ctx.prog.module("serialization.aio"), "BUFFER_SIZES_NAME"), Seq("list", list(sizes)))])
        st, v = attempt(it, lambda: it.await_(it.call(rd, [Seq("list", [hd]), Stub("reader", {}, {"readexactly": read})], [])))
        it.claim(st == "ok" and len(it.parts_of(v)) == len(want), f"device buffers cannot be read ({cname(v) or v})")
        if st != "ok":
            return
        got = [bytes(x) if isinstance(x, (bytes, bytearray)) else None if None in mem[x.attrs["__cuda_array_interface__"].items["data"].parts[0]] else bytes(mem[x.attrs["__cuda_array_interface__"].items["data"].parts[0]]) for x in it.parts_of(v)]
        it.claim(got == want, "a buffer read is not the one written")
        it.claim(all((c == "d") == any(x is b for b in news) for c, x in zip(mix, it.parts_of(v))) and not left, "a buffer arrives at another place than the device, or part of it is not read")
    Sc(ctx, "device-buffers", wr).run("buffers of a device", go, max_paths=600)


def pair(it):
    """the two ends of a connection within a process"""
    mod = it.prog.module(f"{COMM}.dummy")
    srv, cli = mod.defs["DummyServer"], mod.defs["DummyClient"]
    at = []
    gate = it.call(("ext", "asyncio.Event"), [], [])

    def handle(it, a, k):
        def go():
            at.append(a[0])
            it.await_(it.call(it.attr(gate, "wait"), [], []))
        return Coro(go, "handler")
    it.stubs["DummyServer.get_instance"] = lambda it, a, k: s
    s = it.call(srv, ["dummy://0", Stub("handler", {}, {"__call__": handle})], [])
    it.setattr(s, "_channels", Seq("set", []))
    c = it.await_(it.call(it.attr(cli, "connect"), ["dummy://0"], []))
    nap(it, 1)
    return s, c, at[0]


def local(ctx):
    cls = ctx.cls(f"{COMM}.dummy", "DummyChannel")
    f = ctx.method(cls, "send")

    def both(it):
        s, c, sc = pair(it)
        way = outcome(it, "direction", "to the server", "to the client")
        src, dst = (c, sc) if way == "to the server" else (sc, c)
        early = outcome(it, "the receiver", "waits", "comes later")

        def recv(ch):
            return it.spawn(it.call(it.attr(ch, "recv"), [], []), "recv")
        ts = [recv(dst) for i in range(ctx.more(3, 5))] if early == "waits" else []
        own = recv(src)
        nap(it, 1)
        msgs = [Stub(f"message {i}") for i in range(ctx.more(3, 5))]
        for m in msgs:
            it.await_(it.call(it.attr(src, "send"), [m], []))
        ts = ts or [recv(dst) for i in range(ctx.more(3, 5))]
        nap(it, 1)
        it.claim(not own.done, "the sender receives its own message")
        it.claim(all(t.state == "done" for t in ts), "a message is lost")
        it.claim([t.value for t in ts if t.done] == msgs, "the messages received are not the ones sent, in order")
        more = recv(dst)
        nap(it, 1)
        it.claim(not more.done, "a message is received twice")
    Sc(ctx, "local-channel", f).run("messages over a connection within a process", both)


def closing(ctx):
    """C02: nobody waits on a closed connection within a process"""
    cls = ctx.cls(f"{COMM}.dummy", "DummyChannel")
    f = ctx.method(cls, "close")
    ctx.modules.add(ctx.prog.module(f"{COMM}.dummy").rel)

    def close(it):
        s, c, sc = pair(it)
        by = outcome(it, "closed by", "the client", "the server's channel", "the server")
        who = outcome(it, "receiver", "the client", "the server's channel")
        n = outcome(it, "receivers", 1, 2)
        ch = c if who == "the client" else sc
        ts = [it.spawn(it.call(it.attr(ch, "recv"), [], []), "recv") for i in range(n)]
        nap(it, 1)
        tgt, m = {"the client": (c, "close"), "the server's channel": (sc, "close"), "the server": (s, "stop")}[by]
        it.await_(it.call(it.attr(tgt, m), [], []))
        nap(it, 2)
        it.claim(all(t.done for t in ts), "a receiver waits for ever on a connection within the process that was closed")
        for t in ts:
            it.claim(not t.done or t.state == "error" and any(err_is(it, t.value, x) for x in ("EOFError", "ConnectionError")),
                     "a receiver is not told that the connection within the process was closed")
        late = it.spawn(it.call(it.attr(ch, "recv"), [], []), "recv")
        m2 = it.spawn(it.call(it.attr(ch, "send"), [Stub("message")], []), "send")
        nap(it, 2)
        it.claim(late.state == "error" and m2.state == "error", "a closed connection within the process still takes messages")
        it.claim(it.truth(it.attr(ch, "closed")) is True, "a closed connection does not say so")
    Sc(ctx, "closed-wakes-receivers", f).run("closing a connection within a process", close)

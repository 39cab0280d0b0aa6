"""C06: wire frames.  The writer is evaluated abstractly into a symbolic byte
stream, the reader is evaluated on that stream."""
import struct

from .common import *
from ..shapes import Dct, Interp, Lin, Obj, Raised, Seq, Splice, Stuck, T, explore, freeze, sym

COMM = "backends.communication"


def _mis(msg):
    return Raised(T("MISMATCH", msg))


def cells(fmt, vals):
    """Bytes of struct.pack(fmt, *vals): one cell per byte."""
    end = fmt[0] if fmt[:1] in "<>=!@" else "@"
    codes = fmt[1:] if fmt[:1] in "<>=!@" else fmt
    if any(c.isdigit() or c == "x" or c == "s" for c in codes) or len(codes) != len(vals):
        raise Stuck("struct format " + fmt)
    if end == "!":
        end = ">"
    out = []
    for i, (c, v) in enumerate(zip(codes, vals)):
        size = struct.calcsize("=" + c)
        if end == "@":
            size = struct.calcsize("@" + c)
            pad = struct.calcsize("@" + codes[:i + 1]) - size - len(out)
            out += [0] * pad
        e = "" if size == 1 else end
        for k in range(size):
            out.append(T("byte", e, size, c, k, freeze(v)))
    return out


def uncells(fmt, parts):
    end = fmt[0] if fmt[:1] in "<>=!@" else "@"
    codes = fmt[1:] if fmt[:1] in "<>=!@" else fmt
    if any(c.isdigit() or c == "s" for c in codes):
        raise Stuck("struct format " + fmt)
    if end == "!":
        end = ">"
    if struct.calcsize(fmt) != len(parts):
        raise _mis(f"{len(parts)} bytes are read as {fmt!r} ({struct.calcsize(fmt)} bytes)")
    out, pos = [], 0
    for i, c in enumerate(codes):
        size = struct.calcsize(("@" if end == "@" else "=") + c)
        if end == "@":
            pos = struct.calcsize("@" + codes[:i + 1]) - size
        seg = parts[pos:pos + size]
        pos += size
        e = "" if size == 1 else end
        vals = set()
        for k, x in enumerate(seg):
            if not (isinstance(x, T) and x.op == "byte" and x.a[0] == e and x.a[1] == size and x.a[3] == k and x.a[2].islower() == c.islower()):
                raise _mis(f"field {i} of {fmt!r} is not what was written: {x!r}")
            vals.add(x.a[4])
        if len(vals) != 1:
            raise _mis("a header field is read across two written fields")
        out.append(vals.pop())
    return out


_TOB = {1: "B", 2: "H", 4: "I", 8: "Q"}


class Wire:
    """Rewrites modelling bytes, struct, pickling and one byte stream."""

    def __init__(self):
        self.start()

    def start(self):
        self.stream = []
        self.written = 0
        self.pickled = {}
        self.delivered = []
        self.serialized = 0

    # -- attribute hook
    def attr(self, it, o, n):
        if isinstance(o, Seq) and o.kind == "buf" and n == "data":
            return o
        if isinstance(o, Seq) and o.kind in ("buf", "bytes") and n == "nbytes":
            return it.length(o)
        return NotImplemented

    def write(self, it, x):
        self.written += 1
        if isinstance(x, Seq) and x.kind in ("bytes", "buf"):
            if it.generic and any(not isinstance(p, Splice) for p in x.parts):
                raise Stuck("header bytes written in a loop")
            self.stream += x.parts
            return None
        if isinstance(x, bytes):
            self.stream += [T("byte", "", 1, "B", 0, b) for b in x]
            return None
        t = freeze(x)
        if it.generic:
            self.stream.append(Splice(T("each", it.generic[-1], t)))
        else:
            self.stream.append(Splice(t))
        return None

    def read(self, it, n):
        if isinstance(n, int) and not isinstance(n, bool):
            if it.generic:
                raise Stuck("fixed size read in a loop")
            got = self.stream[:n]
            if len(got) < n or any(isinstance(p, Splice) for p in got):
                raise _mis(f"{n} bytes are read where {self._desc(got)} was written")
            del self.stream[:n]
            return Seq("bytes", got)
        if not self.stream:
            raise _mis(f"{n!r} bytes are read past the end of the frame")
        p = self.stream[0]
        if not isinstance(p, Splice):
            raise _mis(f"{n!r} bytes are read where header bytes were written")
        x = p.t
        if it.generic:
            if not (isinstance(x, T) and x.op == "each"):
                raise _mis(f"buffers are read where {x!r} was written")
            base, x = x.a
            if base != it.generic[-1]:
                raise _mis("buffers are read in a different sequence than written")
            self._size(it, n, x)
        else:
            if isinstance(x, T) and x.op == "each":
                raise _mis("one read covers all buffers")
            self._size(it, n, x)
        self.stream.pop(0)
        return x

    def _size(self, it, n, x):
        hasn = it.known.get(("if", T("call", T("ext", "hasattr"), (x, "nbytes"), ())))
        good = [Lin(0, [x])] if hasn == 1 else [T("attr", x, "nbytes")] if hasn == 0 else [T("attr", x, "nbytes"), T("call", T("attr", T("call", T("ext", "memoryview"), (x,), ()), "nbytes"), (), ())]
        if isinstance(x, T) and x.op == "call" and repr(x.a[0]).find("dumps") >= 0:
            good.append(Lin(0, [x]))
        if freeze(n) not in good:
            raise _mis(f"{n!r} bytes are read for {x!r}")

    def _desc(self, ps):
        return "+".join("bytes of %r" % (p.t,) if isinstance(p, Splice) else "1" for p in ps) or "nothing"

    def __call__(self, it, f, args, kw):
        name = None
        if isinstance(f, tuple) and f[0] in ("ext", "builtin"):
            name = f[1]
        elif isinstance(f, T) and f.op in ("ext",):
            name = f.a[0]
        last = name.split(".")[-1] if name else None
        if isinstance(f, Func):
            last = f.name
        if last == "hasattr" and len(args) == 2:
            if args[1] == "__cuda_array_interface__":
                return False
            if args[1] in ("readexactly",):
                return True
            if isinstance(args[0], Seq) and args[0].kind in ("bytes", "buf") and args[1] == "nbytes":
                return True
        if name == "struct.pack":
            return Seq("bytes", cells(args[0], args[1:]))
        if name in ("struct.unpack", "struct.unpack_from"):
            d = args[1]
            if not isinstance(d, Seq):
                raise Stuck("unpack of " + repr(d))
            ps = d.parts
            if name == "struct.unpack_from":
                off = args[2] if len(args) > 2 else 0
                ps = ps[off:off + struct.calcsize(args[0])]
            return Seq("tuple", uncells(args[0], ps))
        if name == "struct.calcsize":
            return struct.calcsize(args[0])
        if isinstance(f, tuple) and f[0] == "ext" and f[1].endswith("int.from_bytes") or isinstance(f, T) and f == T("attr", T("ext", "int"), "from_bytes"):
            d = args[0]
            order = args[1] if len(args) > 1 else dict(kw).get("byteorder", "big")
            if isinstance(d, Seq) and len(d.parts) in _TOB:
                return uncells(("<" if order == "little" else ">") + _TOB[len(d.parts)], d.parts)[0]
            raise Stuck("from_bytes")
        if isinstance(f, T) and f.op == "attr" and f.a[1] == "to_bytes":
            n = args[0] if args else dict(kw).get("length", 1)
            order = args[1] if len(args) > 1 else dict(kw).get("byteorder", "big")
            return Seq("bytes", cells(("<" if order == "little" else ">") + _TOB[n], [f.a[0]]))
        if last == "BytesIO":
            return Seq("buf", list(args[0].parts) if args and isinstance(args[0], Seq) else [])
        if isinstance(f, tuple) and f[0] == "meth" and isinstance(f[1], Seq) and f[1].kind in ("buf", "bytes"):
            o, m = f[1], f[2]
            if m == "write":
                a = args[0]
                if isinstance(a, bytes):
                    o.parts += [T("byte", "", 1, "B", 0, b) for b in a]
                else:
                    o.parts += a.parts if isinstance(a, Seq) else [Splice(freeze(a))]
                return None
            if m in ("getbuffer", "getvalue", "tobytes", "__getbuffer__", "read"):
                return Seq("bytes", o.parts)
            if m in ("seek", "close", "release"):
                return None
        if name in ("bytes", "memoryview", "bytearray") and len(args) == 1 and isinstance(args[0], (Seq, T)):
            if name == "bytearray" and not isinstance(args[0], Seq):
                return NotImplemented
            if name == "bytes" and it.generic:
                return _bytesof(args[0])
            return args[0]
        if last == "join" and isinstance(f, tuple) and f[0] == "meth" and f[1] == b"" and isinstance(args[0], Seq) and args[0].plain:
            ps = []
            for x in args[0].parts:
                ps += x.parts if isinstance(x, Seq) else [Splice(freeze(x))]
            return Seq("bytes", ps)
        if last == "empty" and args:
            b = Seq("buf", [])
            b.size = args[0].parts[0] if isinstance(args[0], Seq) else args[0]
            return b
        if name and name.split(".")[0] in ("pickle", "cloudpickle", "pickle5"):
            if last == "dumps":
                k = T("call", T("ext", "dumps"), (freeze(args[0]),), ())
                self.pickled[k] = _copy(args[0])
                return k
            if last == "loads":
                k = freeze(args[0])
                if k not in self.pickled:
                    raise _mis(f"the header is unpickled from {args[0]!r}")
                return _copy(self.pickled[k])
        if last in ("serialize_with_spawn", "serialize") and isinstance(f, (Func, tuple)) or isinstance(f, T) and repr(f).endswith("serialize_with_spawn"):
            self.serialized += 1
            o = freeze(args[0])
            return Seq("tuple", [Seq("tuple", [Dct(), T("ser", o)]), Seq("list", [Splice(T("bufs", o))])])
        if last == "deserialize":
            return self.deser(it, args)
        if last in ("to_thread",) and args:
            return it.call(args[0], args[1:], kw)
        if isinstance(f, T) and f.op == "attr" and f.a[1] == "run_in_executor" and len(args) > 1:
            return it.call(args[1], args[2:], kw)
        if isinstance(f, T) and f.op == "attr":
            o, m = f.a
            if m == "raw" and isinstance(o, T) and o.op == "call" and "PickleBuffer" in repr(o.a[0]):
                return _bytesof(o.a[1][0])
            if m == "tobytes" or m == "cast" and args and args[0] in ("B", "b", "c"):
                return _bytesof(o)
            if o == sym("writer") and m == "write":
                return self.write(it, args[0])
            if o == sym("writer") and m == "writelines":
                for base, x in it.runs(args[0]):
                    if base is not None:
                        it.generic.append(base)
                    self.write(it, x)
                    if base is not None:
                        it.generic.pop()
                return None
            if o == sym("reader") and m in ("readexactly", "read"):
                return self.read(it, args[0])
            if o == sym("endpoint") and m == "send":
                return self.write(it, args[0])
            if o == sym("endpoint") and m == "recv":
                b = args[0]
                if not (isinstance(b, Seq) and b.kind == "buf" and hasattr(b, "size")):
                    raise Stuck("recv into " + repr(b))
                got = self.read(it, b.size)
                b.parts[:] = got.parts if isinstance(got, Seq) else [Splice(got)]
                return None
        return NotImplemented

    def deser(self, it, args):
        h, b = args[0], args[1]
        if not (isinstance(h, Seq) and h.plain and h.parts and isinstance(h.parts[-1], T) and h.parts[-1].op == "ser"):
            raise _mis(f"the header decoded is {h!r}")
        o = h.parts[-1].a[0]
        t = b.parts[0].t if isinstance(b, Seq) and len(b.parts) == 1 and isinstance(b.parts[0], Splice) else None
        if isinstance(t, T) and t.op == "map" and not t.a[2] and t.a[1] == T("bytesof", T("elem", t.a[0])):
            t = t.a[0]
        if t != T("bufs", o):
            raise _mis(f"the buffers decoded are {b!r}")
        return o


def _bytesof(x):
    """the bytes of a buffer, as a view of single bytes"""
    x = freeze(x)
    return x if isinstance(x, T) and x.op == "bytesof" else T("bytesof", x)


def _copy(v):
    if isinstance(v, Seq):
        return Seq(v.kind, [p if isinstance(p, Splice) else _copy(p) for p in v.parts])
    if isinstance(v, Dct):
        return Dct({k: _copy(x) for k, x in v.items.items()}, v.base)
    return v


def _zero(it):
    """path taken only for empty buffers"""
    return any(k[0] == "if" and isinstance(k[1], T) and k[1].op == "eq" and 0 in k[1].a and c == 0 for k, c in it.known.items())


def frames(ctx: Ctx):
    _pairs(ctx)


def _channel(ctx, mod, cname):
    return ctx.cls(f"{COMM}.{mod}", cname)


def _mk(ctx, cls, kind):
    o = Obj(cls, {"local_address": sym("local"), "dest_address": sym("dest"), "compression": sym("compression"),
                  "_send_lock": sym("send_lock"), "_recv_lock": sym("recv_lock")})
    if kind == "socket":
        o.attrs.update(writer=sym("writer"), reader=sym("reader"), _channel_type=sym("ctype"))
    else:
        o.attrs.update(ucp_endpoint=sym("endpoint"), _closed=False, _has_close_callback=True)
    return o


def _pairs(ctx):
    sock, ucx = _channel(ctx, "socket", "SocketChannel"), _channel(ctx, "ucx", "UCXChannel")
    aio = "serialization.aio"
    ser, des = ctx.cls(aio, "AioSerializer"), ctx.cls(aio, "AioDeserializer")
    for m in (f"{COMM}.socket", f"{COMM}.ucx", f"{COMM}.utils", aio):
        ctx.modules.add(ctx.prog.module(m).rel)

    def via(cls, kind):
        def w(it):
            it.call(it.attr(_mk(ctx, cls, kind), "send"), [sym("message")], [])

        def r(it):
            return it.call(it.attr(_mk(ctx, cls, kind), "recv"), [], [])
        return w, r

    def file_w(it):
        s = it.call(ser, [sym("message")], [("compress", sym("compression"))])
        bufs = it.call(it.attr(s, "run"), [], [])
        for base, x in it.runs(bufs):
            if base is not None:
                it.generic.append(base)
            it.rewrites.write(it, x)
            if base is not None:
                it.generic.pop()

    def file_r(it):
        d = it.call(des, [sym("reader")], [])
        return it.call(it.attr(d, "run"), [], [])

    def head_r(it):
        d = it.call(des, [sym("reader")], [])
        return it.call(it.attr(d, "get_header"), [], [])

    def size_r(it):
        d = it.call(des, [sym("reader")], [])
        return it.call(it.attr(d, "get_size"), [], [])
    sw, sr = via(sock, "socket")
    uw, ur = via(ucx, "ucx")
    for name, w, r, where in (("SocketChannel.send->recv", sw, sr, ctx.method(sock, "recv").where),
                              ("UCXChannel.send->recv", uw, ur, ctx.method(ucx, "recv").where),
                              ("AioSerializer.run->AioDeserializer.run", file_w, file_r, ctx.method(des, "run").where),
                              ("SocketChannel.send->AioDeserializer.run", sw, file_r, ctx.method(des, "run").where)):
        _roundtrip(ctx, name, w, r, where)
    _header_only(ctx, "AioDeserializer.get_header", file_w, head_r, ctx.method(des, "get_header").where)
    _size(ctx, "AioDeserializer.get_size", file_w, size_r, ctx.method(des, "get_size").where, file_r)


def _explore(ctx, name, scenario, wire):
    good = 0
    for it, (kind, val) in explore(ctx.prog, scenario, wire, max_paths=4000):
        ctx.anchors["abstract paths"] = ctx.anchors.get("abstract paths", 0) + 1
        if kind == "stuck":
            ctx.undecided("frame-roundtrip", name, str(val))
            kind = "stuck"
        yield it, kind, val


def _roundtrip(ctx, name, w, r, where):
    wire = Wire()

    def scenario(it):
        wire.start()
        w(it)
        wire.converted = any(isinstance(p, Splice) and p.t.op == "each" and isinstance(p.t.a[1], T) and p.t.a[1].op == "bytesof" for p in wire.stream)
        return r(it)
    good = 0
    conv = False
    for it, kind, val in _explore(ctx, name, scenario, wire):
        if kind == "stuck":
            good += 1
            conv = True
            continue
        if _zero(it):
            continue
        if kind == "raise":
            if isinstance(val.value, T) and val.value.op == "MISMATCH":
                ctx.bad("frame-roundtrip", name, where, val.value.a[0])
                good += 1
            continue
        good += 1
        conv = conv or wire.converted
        if not ctx.check(freeze(val) == sym("message"), "frame-roundtrip", name, where, f"what is received is {val!r}"):
            continue
        ctx.check(not wire.stream, "frame-consumed", name, where, f"part of the frame is not read: {wire._desc(wire.stream)}")
    ctx.check(good > 0, "frame-accepted", name, where, "no frame written is accepted by the reader")
    ctx.check(conv or not good, "typed-views-converted", name, where,
              "a buffer that is a view of items wider than a byte is handed to the transport as it is: partial writes lose data")


def _header_only(ctx, name, w, r, where):
    wire = Wire()

    def scenario(it):
        wire.start()
        w(it)
        return r(it)
    good = 0
    for it, kind, val in _explore(ctx, name, scenario, wire):
        if kind == "stuck":
            good += 1
            continue
        if kind == "raise":
            if isinstance(val.value, T) and val.value.op == "MISMATCH":
                ctx.bad("frame-header", name, where, val.value.a[0])
                good += 1
            continue
        good += 1
        ok = isinstance(val, Seq) and val.parts and isinstance(val.parts[-1], T) and val.parts[-1].op == "ser"
        ctx.check(ok, "frame-header", name, where, f"the header read is {val!r}")
    ctx.check(good > 0, "frame-accepted", name, where, "no frame written is accepted by the reader")


def _size(ctx, name, w, r, where, full):
    """get_size is the number of bytes of the frame"""
    wire = Wire()
    st = {}

    def scenario(it):
        wire.start()
        w(it)
        st["frame"] = list(wire.stream)
        return r(it)
    good = 0
    for it, kind, val in _explore(ctx, name, scenario, wire):
        if kind == "stuck":
            good += 1
            continue
        if kind == "raise":
            if isinstance(val.value, T) and val.value.op == "MISMATCH":
                ctx.bad("frame-size", name, where, val.value.a[0])
                good += 1
            continue
        good += 1
        fixed = sum(not isinstance(p, Splice) for p in st["frame"])
        lens = [p.t for p in st["frame"] if isinstance(p, Splice) and p.t.op != "each"]
        t = freeze(val)
        flat = []

        def leaves(x):
            if isinstance(x, T) and x.op == "Add":
                leaves(x.a[0])
                leaves(x.a[1])
            else:
                flat.append(x)
        leaves(t)
        lin = [x for x in flat if isinstance(x, (int, Lin))]
        tot = Lin(0)
        for x in lin:
            tot = tot.add(x) if isinstance(tot, Lin) else Lin(tot).add(x)
        tot = tot if isinstance(tot, Lin) else Lin(tot)
        rest = [x for x in flat if not isinstance(x, (int, Lin))]
        ok = tot == Lin(fixed, lens) and len(rest) == 1 and isinstance(rest[0], T) and rest[0].op == "call" and "sum" in repr(rest[0].a[0])
        ctx.check(ok, "frame-size", name, where, f"the size reported is {val!r} for a frame of {fixed} header bytes, the pickled header and the buffers")
    ctx.check(good > 0, "frame-accepted", name, where, "no frame written is accepted by the reader")

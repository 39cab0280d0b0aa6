"""C27: every collective operation forwards its arguments to the right peer call, through the API, the rank actor and
the process groups; by abstract interpretation with distinct symbolic buffers, operations, roots, tags and streams."""
import ast

from .client import *
from .contexts import V
from ..shapes import Bound

KEY = "COLLECTIVE_RANK_ADDRESS"
# operation -> parameters of the public function after the buffers
API = {
    "reduce": ("op", "root", "tag", "group_name", "stream"),
    "allreduce": ("op", "tag", "group_name", "stream"),
    "gather": ("root", "tag", "group_name", "stream"),
    "allgather": ("tag", "group_name", "stream"),
    "scatter": ("root", "tag", "group_name", "stream"),
    "reduce_scatter": ("recv_elems", "op", "group_name", "stream"),
    "alltoall": ("tag", "group_name", "stream"),
    "broadcast": ("root", "tag", "group_name", "stream"),
}
RANK = {n: tuple("pg_name" if p == "group_name" else p for p in ps) for n, ps in API.items()}
RANK["allreduce"] = ("op", "algorithm", "tag", "pg_name", "stream")
# what the calls of gloo take, in order (xoscar_pygloo.pyi and the bindings in cpp/collective/gloo)
XP = {
    "reduce": ("reduce", ("size", "type", "op", "root", "tag")),
    "allreduce": ("allreduce", ("size", "type", "op", "algorithm", "tag")),
    "gather": ("gather", ("size", "type", "root", "tag")),
    "allgather": ("allgather", ("size", "type", "tag")),
    "scatter": ("scatter", ("size", "type", "root", "tag")),
    "reduce_scatter": ("reduce_scatter", ("size", "recv_elems", "type", "op")),
    "alltoall": ("all_to_all", ("size", "type", "tag")),
    "broadcast": ("broadcast", ("size", "type", "root", "tag")),
}
XPNAMES = {"reduce": ("context", "sendbuf", "recvbuf", "size", "datatype", "reduceop", "root", "tag"), "allreduce": ("context", "sendbuf", "recvbuf", "size", "datatype", "reduceop", "algorithm", "tag"),
           "gather": ("context", "sendbuf", "recvbuf", "size", "datatype", "root", "tag"), "scatter": ("context", "sendbuf", "recvbuf", "size", "datatype", "root", "tag"),
           "broadcast": ("context", "sendbuf", "recvbuf", "size", "datatype", "root", "tag"), "allgather": ("context", "sendbuf", "recvbuf", "size", "datatype", "tag"),
           "all_to_all": ("context", "sendbuf", "recvbuf", "size", "datatype", "tag"), "reduce_scatter": ("context", "sendbuf", "recvbuf", "size", "recvElems", "datatype", "reduceop")}
ALIKE = ("reduce", "allreduce", "alltoall")  # as many elements received as sent
# values of the enumerations of the native library (cpp/collective/gloo/include/collective.h, gloo/allreduce.h)
REDUCE = ("SUM", "PRODUCT", "MIN", "MAX", "BAND", "BOR", "BXOR", "UNUSED")
ALGO = ("UNSPECIFIED", "RING", "BCUBE")
TYPES = {"int8": "glooInt8", "uint8": "glooUint8", "int32": "glooInt32", "uint32": "glooUint32", "int64": "glooInt64", "uint64": "glooUint64",
         "float16": "glooFloat16", "float32": "glooFloat32", "float64": "glooFloat64"}
MASTER = {"COLLECTIVE_MASTER_IP": "10.0.0.9", "COLLECTIVE_MASTER_PORT": "7777"}


def collectives(ctx: Ctx):
    core = ctx.prog.module("collective.core")
    _api(ctx, core)
    _rank(ctx, core)
    _gloo(ctx)
    _nccl(ctx)
    _groups(ctx, core)
    _start(ctx, core)
    _tables(ctx)


def same(it, x, y):
    return x is y or it.fz(x) == it.fz(y)


def environ(it, **kw):
    e = Dct(list(kw.items()))
    it.exts["os.environ"] = e
    it.stubs["os.getenv"] = lambda it, a, k: dget(e, a[0]) if dget(e, a[0]) is not None else (a[1] if len(a) > 1 else None)
    return e


def bind(names, a, k):
    """arguments of a call by the names of the parameters of what is called; None if they do not fit"""
    if len(a) > len(names) or any(n not in names[len(a):] for n, _ in k):
        return None
    d = dict(zip(names, a))
    d.update(dict(k))
    return d


def values(it, names, like):
    """a distinct symbolic argument for every parameter"""
    en = lambda c, n: it.attr(it.prog.module("collective.common").defs[c], n)
    d = {}
    for n in names:
        if n == "op":
            d[n] = en("CollectiveReduceOp", "MIN")
        elif n == "algorithm":
            d[n] = en("AllReduceAlgorithm", "BCUBE")
        elif n in ("group_name", "pg_name"):
            d[n] = "g1"
        elif n == "stream":
            d[n] = like
        elif n == "recv_elems":
            d[n] = Seq("list", [V("elems 0"), V("elems 1")])
        else:
            d[n] = V(n)
    return d


def defaults(it):
    en = lambda c, n: it.attr(it.prog.module("collective.common").defs[c], n)
    return {"op": en("CollectiveReduceOp", "SUM"), "algorithm": en("AllReduceAlgorithm", "RING"), "root": 0, "tag": 0, "group_name": "default", "pg_name": "default", "stream": None}


def bare(it, cls):
    return Obj(cls, {})


# ---------------------------------------------------------------- public functions
def _api(ctx, core):
    for op, ps in API.items():
        f = core.defs[op]

        def go(it, op=op, ps=ps, f=f):
            known = outcome(it, "process", "takes part", "does not")
            environ(it, **({KEY: "rank:9"} if known == "takes part" else {}))
            given = outcome(it, "arguments", "all given", "by position", "left out")
            log = []

            def actor_ref(it, a, k):
                d = bind(("address", "uid"), a, k) or {}
                it.claim(d.get("address") == "rank:9" and d.get("uid") == "RankActor", "an operation is not sent to the rank of this process")
                return Coro(lambda: Stub("rank", default=lambda it, n: Native(lambda it, a, k: (log.append((n, list(a), list(k))), Coro(lambda: None, n))[1], n)), "actor_ref")
            for n in ("api.actor_ref", "context.actor_ref", "collective.core.actor_ref", "actor_ref"):
                it.stubs[n] = actor_ref
            s, r = V("send"), V("recv")
            args = values(it, ps, V("stream"))
            must = [p for p in ps if p == "recv_elems"]
            if given == "left out":
                pos, kw = [s, r] + [args[p] for p in must], []
                want = {p: args[p] if p in must else defaults(it)[p] for p in ps}
            elif given == "all given":
                pos, kw, want = [], [("send_data", s), ("recv_data", r)] + list(args.items()), args
            else:
                pos, kw, want = [s, r] + [args[p] for p in ps], [], args
            st, v = attempt(it, lambda: it.await_(it.call(f, pos, kw)))
            if known != "takes part":
                it.claim(st == "raise" and err_is(it, v, "RuntimeError") and not log, "an operation in a process that takes no part is not refused")
                return
            it.claim(st == "ok", "an operation fails although the rank did it")
            it.claim(len(log) == 1 and log[0][0] == op, "an operation does not reach the rank as this operation")
            if len(log) != 1:
                return
            d = bind(("send_data", "recv_data") + RANK[op], log[0][1], log[0][2])
            it.claim(d is not None, "an operation is passed to the rank with arguments it does not take")
            if d is None:
                return
            it.claim(d.get("send_data") is s and d.get("recv_data") is r, "an operation is passed to the rank with other buffers")
            df = defaults(it)
            for p in ps:
                q = "pg_name" if p == "group_name" else p
                it.claim(same(it, d[q] if q in d else df.get(q), want[p]), f"{p} is not passed to the rank as given")
            if "algorithm" in RANK[op]:
                it.claim(same(it, d.get("algorithm", df["algorithm"]), df["algorithm"]), "the algorithm passed to the rank is not the default one")
        Sc(ctx, "public functions", f).run(f"{op} to the rank", go)


# ---------------------------------------------------------------- rank actor
def _rank(ctx, core):
    cls = core.defs["RankActor"]
    pgm = ctx.prog.module("collective.process_group").defs

    for op, ps in RANK.items():
        m = cls.methods[op]

        def go(it, op=op, ps=ps, m=m):
            backend = outcome(it, "backend", "gloo", "nccl")
            streamed = outcome(it, "stream", "given", "left out") == "given"
            log = []

            def group(name, b):
                return Stub(f"{b} group {name}", default=lambda it, n: Native(lambda it, a, k: (log.append((b, name, n, list(a), list(k))), None)[1], n))
            o = bare(it, cls)
            groups = Dct([(b, Dct([(g, group(g, b)) for g in ("default", "g1")])) for b in (("gloo", "nccl") if backend == "nccl" else ("gloo", "nccl"))])
            o.attrs.update(_rank=1, _world=3, _device_id=0, _backend=backend, _pg_options=None, name_to_pg=groups)
            given = outcome(it, "arguments", "all given", "left out")
            s, r = V("send"), V("recv")
            args = values(it, ps, V("stream") if streamed else None)
            must = [p for p in ps if p == "recv_elems"]
            if given == "left out":
                kw = [(p, args[p]) for p in ps if p in must or p == "stream" and streamed]
                want = {p: args[p] if p in must or p == "stream" else defaults(it)[p] for p in ps}
            else:
                kw, want = list(args.items()), args
            st, v = attempt(it, lambda: it.call(Bound(m, o, cls), [s, r], kw))
            if streamed and backend == "gloo":
                it.claim(st == "raise" and err_is(it, v, "AssertionError"), "a stream is accepted although the backend has none")
                it.claim(not log, "an operation with a stream is done although the backend has none")
                return
            it.claim(st == "ok", "an operation the backend supports is refused")
            it.claim(len(log) == 1, "an operation is not done once by the group")
            if len(log) != 1:
                return
            b, g, n, a, k = log[0]
            it.claim((b, g) == (backend, want["pg_name"]), "an operation is done in another group than named")
            it.claim(n == op, "another operation is done by the group")
            f = pgm["ProcessGroupGloo" if backend == "gloo" else "ProcessGroupNCCL"].methods[op]
            names = tuple(f.params[1:]) if f.params and f.params[0] == "self" else tuple(f.params)
            d = bind(names, a, k)
            it.claim(d is not None, "an operation is passed to the group with arguments it does not take")
            if d is None or n != op:
                return
            it.claim(d[names[0]] is s and d[names[1]] is r, "an operation is passed to the group with other buffers")
            df = defaults(it)
            for p in ps:
                if p == "pg_name" or p == "stream" and backend == "gloo" or p in ("tag", "algorithm") and backend == "nccl":
                    continue
                it.claim(p in names, f"the group's operation does not take {p}")
                it.claim(same(it, d[p] if p in d else df.get(p), want[p]), f"{p} is not passed to the group as given")
        Sc(ctx, "rank", m).run(f"{op} to the group", go)

    def lookups(it):
        o = bare(it, cls)
        g = {(b, n): V(f"{b} {n}") for b in ("gloo", "nccl") for n in ("default", "g1")}
        o.attrs.update(_rank=1, _world=3, _device_id=4, _backend=outcome(it, "backend", "gloo", "nccl"),
                       name_to_pg=Dct([(b, Dct([(n, g[b, n]) for n in ("default", "g1")])) for b in ("gloo", "nccl")]))
        c = lambda n, *a: it.call(it.attr(o, n), list(a), [])
        it.claim((c("rank"), c("world"), c("device_id"), c("backend")) == (1, 3, 4, o.attrs["_backend"]), "a rank reports another rank, world, device or backend")
        it.claim(c("process_group", "g1") is g[o.attrs["_backend"], "g1"], "a rank gives another group than named")
    Sc(ctx, "rank", cls.methods["process_group"]).run("what a rank tells of itself", lookups)


# ---------------------------------------------------------------- process groups
def array(name, size, dtype):
    ptr = V("memory of " + name)
    return Stub(name, {"size": size, "dtype": Stub("dtype " + dtype, {"type": dtype}), "ctypes": Stub("ctypes " + name, {"data": ptr}), "data": Stub("data", {"ptr": ptr})}, kind="ndarray")


def native(it, log):
    """the native library: records what it is called with"""
    def get(it, n):
        return Native(lambda it, a, k: (log.append((n, list(a), list(k))), None)[1], n)
    xp = Stub("xp", default=get)
    xp.attrs["ReduceOp"] = Native(lambda it, a, k: T("gloo op", it.fz(a[0])), "ReduceOp")
    xp.attrs["AllreduceAlgorithm"] = Native(lambda it, a, k: T("gloo algorithm", it.fz(a[0])), "AllreduceAlgorithm")
    return xp


def _gloo(ctx):
    mod = ctx.prog.module("collective.process_group")
    common = ctx.prog.module("collective.common")
    cls = mod.defs["ProcessGroupGloo"]
    for op, (xop, ps) in XP.items():
        m = cls.methods[op]

        def go(it, op=op, xop=xop, ps=ps, m=m):
            log = []
            xp = native(it, log)
            en = lambda c, n: it.attr(common.defs[c], n)
            ops = Dct([(en("CollectiveReduceOp", n), T("gloo op", n)) for n in REDUCE])
            algos = Dct([(en("AllReduceAlgorithm", n), T("gloo algorithm", n)) for n in ALGO])
            types = Dct([("float32", T("gloo type", "float32")), ("u1", T("gloo type", "u1")), ("int64", T("gloo type", "int64"))])
            for x in (mod, common):
                for n, d in (("xp", xp), ("ReduceOpMappingGloo", ops), ("AllReduceAlgorithmMappingGloo", algos), ("TypeMappingGloo", types)):
                    it.mods[(x.name, n)] = d
            made = {}
            kind = outcome(it, "buffers", "arrays", "bytes", *(("nothing to send",) if op == "broadcast" else ()))

            def frombuffer(it, a, k):
                d = bind(("buffer", "dtype"), a, k) or {}
                it.claim(d.get("dtype") in ("u1", "uint8"), "bytes are taken for another type than bytes")
                x = d.get("buffer")
                return made.setdefault(x.label, array("view of " + x.label, T("size of", "any" if op in ALIKE else x.label), "u1"))
            it.stubs["numpy.frombuffer"] = frombuffer

            def buf(name, size, dtype):
                if kind == "bytes" or kind == "nothing to send" and name == "send":
                    return Stub(name, kind="bytes")
                return array(name, size, dtype)
            seen = lambda x: made.get(x.label, x)
            n = T("length")
            if op == "scatter":
                sizes = [3, 4, 5]
                s = Seq("list", [array(f"send {i}", z, "float32") for i, z in enumerate(sizes)])
                r = array("recv", V("other length"), "float32")
            else:
                # all ranks agree on the type; lengths differ where the operation's do
                s = buf("send", n if op != "broadcast" else V("other length"), "float32")
                r = buf("recv", n if op in ALIKE or op == "broadcast" else V("other length"), "float32")
                if kind == "nothing to send":
                    s = None
            context = V("context")
            o = bare(it, cls)
            o.attrs.update(_context=context, _rank=1, _world_size=3, _group_name="g1", _option=None)
            args = values(it, [p for p in RANK[op] if p not in ("pg_name", "stream")], None)
            st, v = attempt(it, lambda: it.call(Bound(m, o, cls), [s, r], list(args.items())))
            it.claim(st == "ok", "an operation fails before it is started")
            it.claim(len(log) == 1 and log[0][0] == xop, "the operation is not done by the call of the library of its name")
            if len(log) != 1 or log[0][0] != xop:
                return
            d = bind(XPNAMES[xop], log[0][1], log[0][2])
            it.claim(d is not None and len(d) == len(XPNAMES[xop]), "the library is called with arguments it does not take")
            if d is None or len(d) != len(XPNAMES[xop]):
                return
            it.claim(d["context"] is context, "an operation is done in another group's context")
            rb = seen(r)
            if op == "scatter":
                x = d["sendbuf"]
                it.claim(isinstance(x, Seq) and len(x.parts) == 3 and all(y is z.attrs["ctypes"].attrs["data"] for y, z in zip(it.iterate(x), s.parts)), "not every part is sent, in order")
                size, dt = sum(sizes), "float32"
            else:
                sb = rb if s is None else seen(s)
                it.claim(d["sendbuf"] is sb.attrs["ctypes"].attrs["data"], "an operation reads another buffer than given to send")
                src = rb if op == "broadcast" else sb
                size, dt = src.attrs["size"], src.attrs["dtype"].attrs["type"]
            it.claim(d["recvbuf"] is rb.attrs["ctypes"].attrs["data"], "an operation writes another buffer than given to receive")
            it.claim(same(it, d["size"], size), "an operation is done for another number of elements")
            it.claim(same(it, d["datatype"], T("gloo type", dt)), "an operation is done for another type of elements")
            if "op" in ps:
                it.claim(same(it, d["reduceop"], T("gloo op", "MIN")), "another reduction is done than given")
            if "algorithm" in ps:
                it.claim(same(it, d["algorithm"], T("gloo algorithm", "BCUBE")), "another algorithm is used than given")
            for p in ("root", "tag"):
                if p in ps:
                    it.claim(d[p] is args[p], f"another {p} is used than given")
            if "recv_elems" in ps:
                it.claim(same(it, d["recvElems"], args["recv_elems"]), "other numbers of elements are received than given")
        Sc(ctx, "process group", m).run(f"{op} to gloo", go)

    def make(it):
        log, world = [], {}
        env = outcome(it, "master", "options", "environment", "unknown", "already known")
        environ(it, **(MASTER if env in ("environment", "options") else {}))
        opt = Stub("options", {"master_ip": "10.0.0.8", "master_port": "8888"}) if env == "options" else None
        name = outcome(it, "name", "g1", None)
        rank = outcome(it, "rank", 0, 2)
        kept = Stub("world", {"store": V("kept store") if env == "already known" else None, "device": V("kept device") if env == "already known" else None})
        kept.attrs["_store"], kept.attrs["_device"] = kept.attrs["store"], kept.attrs["device"]
        it.mods[(mod.name, "_world")] = kept
        mesh, prefixes, stores, devices = [], [], [], []
        cx = Stub("context", methods={"connectFullMesh": lambda it, a, k: mesh.append(tuple(a))})
        made = []
        rv = Stub("rendezvous", methods={
            "TCPStoreOptions": lambda it, a, k: Stub("store options", {"port": None, "numWorkers": None, "isServer": None}),
            "TCPStore": lambda it, a, k: (stores.append((a[0], dict(a[1].attrs))), V("new store"))[1],
            "PrefixStore": lambda it, a, k: (prefixes.append(tuple(a)), V("prefix store"))[1],
            "Context": lambda it, a, k: (made.append(tuple(a)), cx)[1]})
        dev = Stub("transport", methods={"attr": lambda it, a, k: Stub("attr", {"ip": a[0]}), "CreateDevice": lambda it, a, k: (devices.append(a[0].attrs["ip"]), V("new device"))[1]})
        xp = Stub("xp", {"rendezvous": rv, "transport": Stub("transports", {"tcp": dev, "uv": dev})})
        it.mods[(mod.name, "xp")] = xp
        it.stubs["is_linux"] = lambda it, a, k: outcome(it, "linux", True, False)
        st, o = attempt(it, lambda: it.call(cls, ["10.0.0.3", rank, 3], [("group_name", name), ("pg_options", opt)]))
        if env == "unknown":
            it.claim(st == "raise" and err_is(it, o, "ValueError") and not mesh, "a group without a known master is not refused")
            return
        it.claim(st == "ok", "a group cannot be made")
        if st != "ok":
            return
        if env == "already known":
            it.claim(not stores and not devices, "a second group opens another connection to the master")
            store, device = "value kept store", "value kept device"
        else:
            it.claim(len(stores) == 1 and stores[0] == ("10.0.0.8" if env == "options" else "10.0.0.9", {"port": 8888 if env == "options" else 7777, "numWorkers": 3, "isServer": rank == 0}), "a group meets at another master, or with another role")
            it.claim(devices == ["10.0.0.3"], "a group uses another device than that of its address")
            store, device = "value new store", "value new device"
            it.claim(all(getattr(kept.attrs[n] or kept.attrs["_" + n], "label", None) == x for n, x in (("store", store), ("device", device))), "the connection of the first group is not kept for the others")
        it.claim(len(prefixes) == 1 and prefixes[0][0] == (name or "3") and prefixes[0][1].label == store, "groups of different names meet each other")
        it.claim(made == [(rank, 3)], "a group is joined with another rank or size")
        it.claim(len(mesh) == 1 and mesh[0][0].label == "value prefix store" and mesh[0][1].label == device, "a group is not connected")
        g = lambda n: it.attr(o, n)
        it.claim((g("rank"), g("world_size"), g("name")) == (rank, 3, name), "a group reports another rank, size or name")
        it.claim(o.attrs.get("_context") is cx, "a group's operations do not use its context")
    Sc(ctx, "process group", cls.methods["__init__"]).run("joining a group", make)


# calls of cupy's NCCL backend (the group of all ranks) and of a NCCL communicator (other groups)
BACKEND = {"reduce": ("reduce", ("in", "out", "root", "op", "stream")), "allreduce": ("all_reduce", ("in", "out", "op", "stream")), "gather": ("gather", ("in", "out", "root", "stream")),
           "allgather": ("all_gather", ("in", "out", "count", "stream")), "scatter": ("scatter", ("in", "out", "root", "stream")), "alltoall": ("all_to_all", ("in", "out", "stream")),
           "reduce_scatter": ("reduce_scatter", ("in", "out", "count", "op", "stream")), "broadcast": ("broadcast", ("inout", "root", "stream"))}
COMM = {"reduce": ("reduce", ("in", "out", "count", "type", "op", "root", "stream")), "allreduce": ("allReduce", ("in", "out", "count", "type", "op", "stream")),
        "allgather": ("allGather", ("in", "out", "count", "type", "stream")), "reduce_scatter": ("reduceScatter", ("in", "out", "count", "type", "op", "stream")),
        "broadcast": ("broadcast", ("in", "out", "count", "type", "root", "stream"))}
P2P = ("ptr", "count", "type", "peer", "stream")


def rows(name, n, copies, dtype="float32"):
    """an array of n rows"""
    a = array(name, T("size", name), dtype)

    def row(it, x, k):
        i = span(x[0])
        if i is None or not 0 <= i < n:
            raise Raised(Exc("IndexError"))
        return array(f"{name} row {i}", T("row size"), dtype)

    def put(it, x, k):
        i = span(x[0])
        copies.append((f"{name} row {i}" if i is not None else name, x[1].label))
    a.attrs["shape"] = Seq("tuple", [n, T("columns")])
    a.methods.update(__getitem__=row, __setitem__=put, reshape=lambda it, x, k: a)
    for m in ("__eq__", "__ne__"):
        a.methods[m] = lambda it, x, k: Stub("differences", default=lambda it, n: Native(lambda it, a, k: n == "any", n))
    return a


def span(x):
    """the row a slice or index names; None: all of them"""
    if isinstance(x, int):
        return x
    lo, hi = getattr(x, "a", None), getattr(x, "b", None)
    return lo if isinstance(lo, int) and hi == lo + 1 else None


def _nccl(ctx):
    mod = ctx.prog.module("collective.process_group")
    common = ctx.prog.module("collective.common")
    utils = ctx.prog.module("collective.utils")
    cls = mod.defs["ProcessGroupNCCL"]
    ptr = lambda x: x.attrs["data"].attrs["ptr"]

    def setup(it, log):
        for x in (mod, utils, common):
            it.mods[(x.name, "cupy")] = ("ext", "cupy")
        en = lambda n: it.attr(common.defs["CollectiveReduceOp"], n)
        for x in (mod, common):
            it.mods[(x.name, "ReduceOpMappingNCCL")] = Dct([(en(n), T("nccl op", n)) for n in REDUCE[:4]])
            it.mods[(x.name, "ReduceOpMappingNCCLStr")] = Dct([(en(n), T("nccl op", n)) for n in REDUCE[:4]])
            it.mods[(x.name, "TypeMappingNCCL")] = Dct([("float32", T("nccl type", "float32")), ("u1", T("nccl type", "u1"))])
        null = Stub("null stream", {"ptr": T("null stream")}, kind="Stream")
        it.exts["cupy.cuda.Stream.null"] = null
        for n in ("groupStart", "groupEnd"):
            it.stubs["cupy.cuda.nccl." + n] = lambda it, a, k, n=n: log.append((n, [], []))
        return null

    for op in XP:
        m = cls.methods[op]

        def go(it, op=op, m=m):
            log, copies = [], []
            null = setup(it, log)
            world = outcome(it, "group", "of all ranks", "of some") == "of all ranks"
            rank = outcome(it, "rank", 0, 1, 2)
            streamed = outcome(it, "stream", True, False)
            root = 1
            o = bare(it, cls)
            back = Stub("backend", default=lambda it, n: Native(lambda it, a, k: (log.append((n, list(a), list(k))), None)[1], n))
            o.attrs.update(_is_world=world, _backend=back, _rank=rank, _world_size=3, _group_name=None if world else "g1", _option=None)
            stream = Stub("stream", {"ptr": T("stream")}, kind="Stream") if streamed else None
            # lengths an operation is legal with
            s, r = rows("send", 3, copies), rows("recv", 3, copies)
            s.attrs["size"] = r.attrs["size"] = 12
            if op == "gather":
                s.attrs["size"] = 4
            if op == "scatter":
                s = Seq("list", [rows(f"send {i}", 1, copies) for i in range(3)])
            cat = rows("all of send", 3, copies)

            def concatenate(it, a, k):
                it.claim(isinstance(a[0], Seq) and all(x is y for x, y in zip(a[0].parts, s.parts)) and len(a[0].parts) == 3, "not every part is sent, in order")
                return cat
            it.stubs["cupy.concatenate"] = concatenate
            elems = Seq("list", [V(f"elems {i}") for i in range(3)])
            en = it.attr(common.defs["CollectiveReduceOp"], "MIN")
            args = {"op": en, "root": root, "recv_elems": elems, "stream": stream}
            st, v = attempt(it, lambda: it.call(Bound(m, o, cls), [s, r], [(p, args[p]) for p in RANK[op] if p in args]))
            it.claim(st == "ok", "an operation fails before it is started")
            if st != "ok":
                return
            used = stream or null
            calls = [x for x in log if not x[0].startswith("group")]
            if world or op in COMM:
                name, ps = (BACKEND if world else COMM)[op]
                it.claim(len(calls) == 1 and calls[0][0] == name, "the operation is not done by the call of the backend of its name")
                if len(calls) != 1 or calls[0][0] != name:
                    return
                d = bind(ps, calls[0][1], calls[0][2])
                it.claim(d is not None and len(d) == len(ps), "the backend is called with arguments it does not take")
                if d is None or len(d) != len(ps):
                    return
                buf = (lambda x: x) if world else ptr
                if "in" in ps:
                    it.claim(d["in"] is buf(cat if op == "scatter" else s), "an operation reads another buffer than given to send")
                    it.claim(d["out"] is buf(r), "an operation writes another buffer than given to receive")
                else:
                    it.claim(d["inout"] is (s if rank == root else r), "an operation reads another buffer than given to send")
                    it.claim(rank != root or ("recv", "send") in copies, "the rank that sends does not receive what it sent")
                it.claim(same(it, d["stream"], used if world else used.attrs["ptr"]), "an operation is done in another stream than given")
                if "root" in ps:
                    it.claim(d["root"] == root, "another root is used than given")
                if "op" in ps:
                    it.claim(same(it, d["op"], T("nccl op", "MIN")), "another reduction is done than given")
                if "type" in ps:
                    it.claim(same(it, d["type"], T("nccl type", "float32")), "an operation is done for another type of elements")
                if "count" in ps:
                    it.claim(same(it, d["count"], elems.parts[rank] if op == "reduce_scatter" else s.attrs["size"]), "an operation is done for another number of elements")
                return
            # made of single messages: what every rank has to send and to receive
            row = lambda n, i: (f"memory of {n} row {i}", T("row size"))
            whole = lambda x: (ptr(x).label[6:], x.attrs["size"])
            parts = s.parts if op == "scatter" else None
            want = []
            if op == "gather":
                want = [("recv", p) + row("recv", p) for p in range(3) if p != rank] if rank == root else [("send", root) + whole(s)]
            elif op == "scatter":
                want = [("send", p) + whole(parts[p]) for p in range(3) if p != rank] if rank == root else [("recv", root) + whole(r)]
            else:
                want = [(x, p) + row("send" if x == "send" else "recv", p) for p in range(3) if p != rank for x in ("send", "recv")]
            got = []
            for n, a, k in calls:
                d = bind(P2P, a, k)
                it.claim(d is not None and len(d) == 5 and n in ("send", "recv"), "the backend is called with arguments it does not take")
                if d is None or len(d) != 5:
                    return
                it.claim(same(it, d["type"], T("nccl type", "float32")), "an operation is done for another type of elements")
                it.claim(same(it, d["stream"], used.attrs["ptr"]), "an operation is done in another stream than given")
                got.append((n, d["peer"], d["ptr"].label[6:], d["count"]))
            fz = lambda xs: sorted((str(it.fz(Seq("tuple", list(x)))) for x in xs))
            it.claim(fz(got) == fz(want), "a rank sends or receives other parts than the operation says")
            own = {"gather": ("recv row 1", "send"), "scatter": ("recv", "send 1"), "alltoall": (f"recv row {rank}", f"send row {rank}")}[op]
            it.claim((own in copies) == (op == "alltoall" or rank == root), "a rank does not get its own part")
            marks = [n for n, _, _ in log]
            if len(calls) > 1:
                it.claim(marks[0] == "groupStart" and marks[-1] == "groupEnd" and marks.count("groupStart") == marks.count("groupEnd") == 1, "messages that need each other are not started together")
            else:
                it.claim(marks.count("groupStart") == marks.count("groupEnd"), "a group of messages is not ended")
        Sc(ctx, "process group", m).run(f"{op} to nccl", go)


# ---------------------------------------------------------------- groups of a rank
def _groups(ctx, core):
    cls = core.defs["RankActor"]
    mod = core

    def rank_actor(it, rank, world, backend, made):
        def ctor(kind, names):
            def fn(it, a, k):
                d = bind(names, a, k)
                it.claim(d is not None, "a group is made with arguments it does not take")
                made.append((kind, d or {}))
                return Stub(f"group {len(made)}")
            return Native(fn, kind)
        it.mods[(mod.name, "ProcessGroupGloo")] = ctor("gloo", ("ip", "rank", "world_size", "group_name", "pg_options"))
        it.mods[(mod.name, "ProcessGroupNCCL")] = ctor("nccl", ("ip", "rank", "device_id", "world_size", "group_name", "pg_options"))
        it.mods[(mod.name, "cupy")] = Stub("cupy")
        it.stubs["hashlib.sha1"] = lambda it, a, k: Stub("sha1", methods={"hexdigest": lambda it, b, c: "sha1:" + str(it.fz(a[0]))})
        world_opt = V("world options")
        o = bare(it, cls)
        o.attrs.update(_address="fd00::3:5", _uid=b"RankActor")
        it.call(Bound(cls.methods["__init__"], o, cls), [rank, world], [("backend", backend), ("device_id", 6), ("pg_options", world_opt)])
        return o, world_opt

    def new_group(it):
        backend = outcome(it, "backend", "gloo", "nccl")
        rank = outcome(it, "rank", 0, 1, 3)
        ranks = outcome(it, "ranks", (0, 1), (1, 0), (3, 0), (1,), (0, 1, 3), (3, 1, 0), (2, 3, 1, 0), (0, 0), (1, 4), (-1, 1), (0, 1, 2, 3, 4), ())
        made = []
        o, wo = rank_actor(it, rank, 4, backend, made)
        opt = V("options")
        legal = len(set(ranks)) == len(ranks) <= 4 and all(0 <= r < 4 for r in ranks)
        st, v = attempt(it, lambda: it.call(it.attr(o, "new_group"), [Seq("list", list(ranks)), opt], []))
        if not legal:
            it.claim(st == "raise" and not made, "a group of illegal ranks is not refused")
            return
        it.claim(st == "ok", "a group of legal ranks is refused")
        if st != "ok":
            return
        if rank not in ranks:
            it.claim(v is None and not made, "a rank joins a group it is no member of")
            return
        if len(ranks) == 4:
            it.claim(v == "default" and not made, "the group of all ranks is not the default group")
            return
        it.claim(isinstance(v, str) and v != "default", "a new group has the name of the default group")
        it.claim(len(made) == 1 and made[0][0] == backend, "a group is not made once, of the rank's backend")
        if len(made) != 1:
            return
        d = made[0][1]
        it.claim(d.get("ip") == "fd00::3" and d.get("group_name") == v and d.get("pg_options") is opt and (backend == "gloo" or d.get("device_id") == 6), "a group is made with other arguments than given")
        it.claim(d.get("rank") == sorted(ranks).index(rank) and d.get("world_size") == len(ranks), "the members of a group do not agree on their ranks in it")
        g = it.call(it.attr(o, "process_group"), [v], [])
        it.claim(isinstance(g, Stub) and g.label == "group 1", "a new group cannot be used by its name")
        # the same members in another order are the same group, others are not
        again = it.call(it.attr(o, "new_group"), [Seq("list", list(reversed(ranks)))], [])
        it.claim(again == v and len(made) == 1, "the group of the same members is made again")
        other = sorted(ranks)
        other[len(other) // 2] = next(r for r in range(4) if r not in ranks) if len(other) > 1 else 2
        if rank not in other:
            other.append(rank)
        if len(other) == 4:
            return
        w = it.call(it.attr(o, "new_group"), [Seq("list", list(other))], [])
        it.claim(w != v and len(made) == 2, "groups of different members are taken for the same")
        # every member computes the same name
        for r in ranks:
            if r != rank:
                made2 = []
                o2, _ = rank_actor(it, r, 4, backend, made2)
                it.claim(it.call(it.attr(o2, "new_group"), [Seq("list", list(ranks))], []) == v, "the members of a group name it differently")
    def many(it):
        made = []
        o, _ = rank_actor(it, 1, 32, "gloo", made)
        sets = [(1, 2), (1, 23), (1, 2, 3), (0, 1, 2), (1, 11), (1, 12), (1, 2, 13), (1, 21, 3), (1, 22, 13)]
        names = [it.call(it.attr(o, "new_group"), [Seq("list", list(s))], []) for s in sets]
        o2, _ = rank_actor(it, 12, 32, "gloo", made)
        names += [it.call(it.attr(o2, "new_group"), [Seq("list", list(s))], []) for s in ((3, 12), (12, 13), (2, 12))]
        it.claim(len({it.fz(n) for n in names}) == len(names), "groups of different members have the same name")
    Sc(ctx, "groups", cls.methods["new_group"]).run("groups of a large world", many)
    Sc(ctx, "groups", cls.methods["new_group"]).run("new group", new_group, max_paths=2000)

    def post(it):
        backend = outcome(it, "backend", "gloo", "nccl", "mpi")
        made = []
        e = environ(it)
        st, v = attempt(it, lambda: rank_actor(it, 1, 3, backend, made))
        if backend == "mpi":
            it.claim(st == "raise", "an unknown backend is not refused")
            return
        it.claim(st == "ok", "a rank with a known backend is refused")
        o, wo = v
        st, _ = attempt(it, lambda: it.await_(it.call(it.attr(o, "__post_create__"), [], [])))
        it.claim(st == "ok" and len(made) == 1 and made[0][0] == backend, "a rank does not join the default group of its backend")
        if len(made) != 1:
            return
        d = made[0][1]
        it.claim(d.get("ip") == "fd00::3" and d.get("rank") == 1 and d.get("world_size") == 3 and d.get("pg_options") is wo and d.get("group_name", "default") in ("default", None) and (backend == "gloo" or d.get("device_id") == 6), "the default group is joined with other arguments than given")
        g = it.call(it.attr(o, "process_group"), ["default"], [])
        it.claim(isinstance(g, Stub) and g.label == "group 1", "the default group cannot be used by its name")
        it.claim(dget(e, KEY) == "fd00::3:5", "the process does not know its rank afterwards")
        it.claim(it.call(it.attr(cls, "default_uid"), [], []) == "RankActor", "the rank is not found under its id")
    Sc(ctx, "groups", cls.methods["__post_create__"]).run("default group", post)


# ---------------------------------------------------------------- starting
def _start(ctx, core):
    f = core.defs["init_process_group"]
    cls = core.defs["RankActor"]

    def start(it):
        backend = outcome(it, "backend", "gloo", "nccl", "mpi")
        dev = outcome(it, "device", None, 2, -1, 0)
        envdev = outcome(it, "device of the environment", None, "3", "-1")
        addr = outcome(it, "address", "a:1", None)
        envaddr = outcome(it, "address of the environment", "e:1", None)
        cupy = outcome(it, "cupy", True, False) if backend == "nccl" else False
        kw = {}
        if envdev is not None:
            kw["COLLECTIVE_DEVICE_ID_FOR_AN_ACTOR"] = envdev
        if envaddr is not None:
            kw[KEY] = envaddr
        environ(it, **kw)
        it.mods[(core.name, "cupy")] = Stub("cupy") if cupy else None
        log = []
        it.stubs["get_context"] = lambda it, a, k: spy(it, log)
        st, v = attempt(it, lambda: it.await_(it.call(f, [1, 3], [("backend", backend), ("device_id", dev), ("address", addr)])))
        legal = backend == "gloo" or backend == "nccl" and cupy and (dev is not None and dev >= 0 or envdev == "3")
        if backend == "nccl" and envdev is not None and dev == -1:
            return  # contradictory arguments: either is fine
        if not legal or not (addr or envaddr):
            it.claim(st == "raise" and not log, "joining with missing or illegal arguments is not refused")
            return
        it.claim(st == "ok" and len(log) == 1 and log[0][0] == "create_actor", "joining with legal arguments does not make the rank")
        if len(log) != 1:
            return
        _, a, k = log[0]
        k = dict(k)
        it.claim(a and a[0] is cls, "joining makes another actor than the rank")
        it.claim(k.pop("address", None) == (addr or envaddr) and k.pop("uid", None) == "RankActor", "the rank is made at another place or under another id")
        d = bind(("rank", "world", "backend", "device_id", "pg_options"), a[1:], list(k.items())) or {}
        it.claim((d.get("rank"), d.get("world")) == (1, 3) and d.get("backend", "gloo") == backend, "the rank is made with another rank, world or backend")
        it.claim(d.get("device_id") == (int(envdev) if backend == "nccl" and dev is None else dev), "the rank is made with another device")
    Sc(ctx, "starting", f).run("init_process_group", start, max_paths=2000)

    g = core.defs["new_group"]

    def group(it):
        known = outcome(it, "process", "takes part", "does not")
        environ(it, **({KEY: "rank:9"} if known == "takes part" else {}))
        log = []

        def actor_ref(it, a, k):
            d = bind(("address", "uid"), a, k) or {}
            it.claim(d.get("address") == "rank:9" and d.get("uid") == "RankActor", "an operation is not sent to the rank of this process")
            return Coro(lambda: spy(it, log), "actor_ref")
        it.stubs["actor_ref"] = actor_ref
        x, y = V("ranks"), V("options")
        st, v = attempt(it, lambda: it.await_(it.call(g, [x], [("pg_options", y)])))
        if known != "takes part":
            it.claim(st == "raise" and err_is(it, v, "RuntimeError") and not log, "an operation in a process that takes no part is not refused")
            return
        it.claim(st == "ok" and len(log) == 1 and log[0][0] == "new_group", "a new group is not asked of the rank")
        if len(log) == 1:
            d = bind(("ranks", "pg_options"), log[0][1], log[0][2]) or {}
            it.claim(d.get("ranks") is x and d.get("pg_options") is y, "a new group is asked for with other arguments than given")
            it.claim(same(it, v, T("result", "new_group")), "the name of the new group is lost")
    Sc(ctx, "starting", g).run("new_group", group)


def spy(it, log):
    return Stub("peer", default=lambda it, n: Native(lambda it, a, k: (log.append((n, list(a), list(k))), Coro(lambda: T("result", n), n))[1], n))


# ---------------------------------------------------------------- tables
def _tables(ctx):
    """The tables between the names of Python and those of the libraries."""
    common = ctx.prog.module("collective.common")
    for cname_, names in (("CollectiveReduceOp", REDUCE), ("AllReduceAlgorithm", ALGO)):
        c = common.defs[cname_]

        def values_(it, c=c, names=names):
            got = {n: it.attr(it.attr(c, n), "value") for n in names}
            for i, n in enumerate(names):
                it.claim(got[n] == i, f"{n} is another operation for the native library")
        f = next(iter(ctx.prog.module("collective.process_group").defs["ProcessGroupGloo"].methods.values()))
        Sc(ctx, "tables", f).run(f"numbers of {cname_}", values_)

    def types(it):
        xp = native(it, [])
        xp.attrs["GlooDataType_t"] = Stub("types", default=lambda it, n: T("gloo type", n))
        it.exts.update({f"numpy.{n}": n for n in TYPES})
        it.mods[(common.name, "xp")] = xp
        t = it.glob(common, "TypeMappingGloo")
        for n, x in TYPES.items():
            it.claim(same(it, dget(t, n), T("gloo type", x)), f"{n} is another type for gloo")
        it.claim(len(items_of(t)) == len(TYPES), "a type is passed to gloo that it may not know")
    Sc(ctx, "tables", common.defs["_register_reduce_op"]).run("types of gloo", types)

    def nums(it):
        it.mods[(common.name, "xp")] = native(it, [])
        for fn, cn, tn, key, names in (("_register_reduce_op", "CollectiveReduceOp", "ReduceOpMappingGloo", "gloo op", REDUCE), ("_register_allreduce_algo", "AllReduceAlgorithm", "AllReduceAlgorithmMappingGloo", "gloo algorithm", ALGO)):
            c = common.defs[cn]
            it.mods[(common.name, tn)] = Dct()
            it.claim(it.call(common.defs[fn], [c], []) is c, "registering an enumeration replaces it")
            t = it.glob(common, tn)
            for n in names:
                e = it.attr(c, n)
                it.claim(same(it, dget(t, e), T(key, it.fz(e))), f"{n} is passed to gloo as another operation")
    Sc(ctx, "tables", common.defs["_register_reduce_op"]).run("operations of gloo", nums)

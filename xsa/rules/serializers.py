"""C07: writer / reader agreement of every serializer, identity of repeated
references, unique ids, and the traversal that ties header and buffers together."""
import hashlib

from .common import *
from ..shapes import Bound, Clo, Dct, Interp, Lin, Obj, Raised, Seq, Splice, Stuck, T, explore, freeze, sym
from ..machine import Native, Stub
from .scen import Sc, attempt, cname, dget, items_of, outcome

SER = "serialization.core"


def tsub(t):
    """All sub terms of a shape term."""
    yield t
    if isinstance(t, T):
        for x in t.a:
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            yield from tsub(z)
                    else:
                        yield from tsub(y)
            else:
                yield from tsub(x)


def strip(t):
    """Forget container copies: tuple(list(x)) is x."""
    while isinstance(t, T) and t.op == "seqof":
        t = t.a[1]
    return t


class Pairs:
    """Rewrites of inverse pairs met in serializers."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, it, f, args, kw):
        nm = f.name if isinstance(f, Func) else None
        ext = f[1] if isinstance(f, tuple) and f[0] in ("ext", "builtin") else f.a[0] if isinstance(f, T) and f.op == "ext" else ""
        if not isinstance(ext, str):
            ext = ""
        last = nm or ext.split(".")[-1]
        if last in ("_fast_id", "fast_id", "id") and len(args) == 1:
            return T("id", freeze(args[0]))
        if last in ("pickle_buffers",):
            return Seq("list", [T("pickled0", freeze(args[0])), Splice(T("pickledN", freeze(args[0])))])
        if last in ("unpickle_buffers",):
            b = args[0]
            if isinstance(b, Seq) and len(b.parts) == 2 and isinstance(b.parts[0], T) and b.parts[0].op == "pickled0" and isinstance(b.parts[1], Splice) and \
                    b.parts[1].t == T("pickledN", b.parts[0].a[0]):
                return b.parts[0].a[0]
            raise Raised(T("MISMATCH", f"{b!r} is unpickled"))
        if last in ("serialize",) and nm:
            o = freeze(args[0])
            return Seq("tuple", [Seq("tuple", [Dct(), T("ser", o)]), Seq("list", [Splice(T("bufs", o))])])
        if last in ("deserialize",) and nm:
            h, b = args[0], args[1]
            o = h.parts[-1].a[0] if isinstance(h, Seq) and h.plain and h.parts and isinstance(h.parts[-1], T) and h.parts[-1].op == "ser" else None
            bb = b.parts[0].t if isinstance(b, Seq) and len(b.parts) == 1 and isinstance(b.parts[0], Splice) else None
            if o is None or bb != T("bufs", o):
                raise Raised(T("MISMATCH", f"the part decoded from {h!r} gets the buffers {b!r}"))
            return o
        if ext.endswith("descr_to_dtype") or ext in ("numpy.dtype",):
            a = freeze(args[0])
            if isinstance(a, T) and a.op == "call" and "dtype_to_descr" in repr(a.a[0]):
                return a.a[1][0]
        if isinstance(f, T) and f.op == "attr" and f.a[1] == "decode" and isinstance(f.a[0], T) and f.a[0].op == "call" and isinstance(f.a[0].a[0], T) and f.a[0].a[0].op == "attr" and f.a[0].a[0].a[1] == "encode":
            if tuple(f.a[0].a[1]) == tuple(freeze(x) for x in args):
                return f.a[0].a[0].a[0]
        if isinstance(f, T) and f.op == "attr" and f.a[1] == "tobytes":
            return f.a[0]
        return NotImplemented


def _decorated(ctx, it, inst, m):
    """Value called for inst.<m>, with the package's own decorators applied."""
    b = it.attr(inst, m)
    f = b.func
    v = b
    for d in reversed(f.decorators):
        r = ctx.prog.resolve_expr(f.module, d.func if isinstance(d, ast.Call) else d)
        if isinstance(r, Func) and not isinstance(d, ast.Call):
            inner = T("method", f.qual)
            it.methods[inner] = f
            res = it.call_func(r, [inner], [])
            if isinstance(res, Clo):
                v = (res, inst)
    return v


def _call_serial(ctx, it, inst, m, args):
    v = _decorated(ctx, it, inst, m)
    if isinstance(v, tuple):
        return it.call(v[0], [v[1]] + args, [])
    return it.call(v, args, [])


def serializers(ctx: Ctx):
    base = ctx.cls(SER, "Serializer")
    ms = ctx.cls("backends.message", "MessageSerializer")
    allc = [c for c in ctx.prog.subclasses(base) if c is not base]
    ctx.need(allc, "serializer classes", 10)
    conc = [c for c in allc if any("serial" in k.methods for k in ctx.prog.mro(c) if k is not base)]
    for c in conc:
        ctx.modules.add(c.module.rel)
        if c is ms or c.name in VIA_ENGINE:
            continue
        _roundtrip(ctx, c)
    _ids(ctx, allc)
    _engine(ctx)
    _graphs(ctx)
    _keys(ctx)
    _register(ctx)
    _pickled(ctx)


# ------------------------------------------------------------------ leaf serializers

def _mentions(ts, x):
    return any(s == x for t in ts for s in tsub(t))


def _attr_of(ts, names):
    """some term X.<name>... with X made of the object"""
    for t in ts:
        for s in tsub(t):
            if isinstance(s, T) and s.op == "attr" and s.a[1] in names and _mentions([s], sym("obj")):
                return True
    return False


# what the object is rebuilt from; each entry lists alternatives
SPEC = {
    "NDArraySerializer": [("shape",), ("strides", "order"), ("dtype",)],
    "CupySerializer": [("shape",), ("strides",)],
    "MLXSerislizer": [("shape",), ("dtype",)],
    "TorchTensorSerializer": [("shape",), ("dtype",), ("requires_grad",)],
    "CsrMatrixSerializer": [("data",), ("indices",), ("indptr",), ("shape",)],
}
SKIP = {"CollectionSerializer"}
VIA_ENGINE = {"ListSerializer", "TupleSerializer", "DictSerializer"}


def _roundtrip(ctx, c):
    name = c.name
    sm = ctx.method(c, "serial")
    if name in SKIP:
        return
    st = {}
    rw = Pairs(ctx)

    def hooked(it, f, args, kw):
        if isinstance(f, T) and f in it.methods:
            return it.call_func(it.methods[f], args, kw, c)
        if isinstance(f, tuple) and f == ("builtin", "type") and len(args) == 1 and isinstance(args[0], (T,)) and args[0] == sym("obj"):
            return T("typeof", sym("obj"))
        return rw(it, f, args, kw)

    def attr(it, o, n):
        if isinstance(o, Dct) and getattr(o, "is_ctx", False) and n == "pop":
            return T("ctxpop")
        return NotImplemented
    hooked.attr = attr

    def scenario(it):
        it.methods = {}
        st.clear()
        cx = Dct((), sym("context"))
        cx.is_ctx = True
        inst = Obj(c, {})
        for k in ctx.prog.mro(c):
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    inst.attrs.setdefault(s.target.id, T("attr", sym("self"), s.target.id))
        r = _call_serial(ctx, it, inst, "serial", [sym("obj"), cx])
        st["ctx"] = cx
        st["popped"] = any(isinstance(x, T) and x.op == "call" and x.a[0] == T("ctxpop") for x in it.log)
        if isinstance(r, Obj):
            st["holder"] = r
            return None
        if not (isinstance(r, Seq) and r.plain and len(r.parts) == 3):
            raise Stuck(f"serial returns {r!r}")
        h, subs, final = r.parts
        if not isinstance(h, Seq):
            raise Stuck(f"header {h!r}")
        st["h"], st["subs"], st["final"] = list(h.parts), (list(subs.parts) if isinstance(subs, Seq) else [Splice(freeze(subs))]), final
        n0 = len(it.log)
        res = it.call(it.attr(inst, "deserial"), [Seq("tuple", h.parts), Dct(), Seq("list", st["subs"])], [])
        st["res"] = res
        st["log"] = it.log[n0:]
        return res
    wh = ctx.method(c, "deserial").where
    good = 0
    placeholder = False
    for it, (kind, val) in explore(ctx.prog, scenario, hooked, max_paths=512):
        ctx.anchors["abstract paths"] = ctx.anchors.get("abstract paths", 0) + 1
        if kind == "stuck":
            if name in VIA_ENGINE and "holder" not in st:
                good += 1
                if "ctx" in st and "holder" not in st and "h" in st:
                    _identity(ctx, name, sm, st, it)
                continue
            ctx.undecided("serializer-roundtrip", name, str(val))
            good += 1
            continue
        if kind == "raise":
            v = val.value
            if isinstance(v, T) and v.op in ("IndexError", "KeyError", "ValueError", "TypeError", "MISMATCH", "AttributeError"):
                ctx.bad("serializer-roundtrip", name, wh, f"decoding what was encoded fails: {v!r} {' '.join(map(str, val.args[1:]))}")
                good += 1
            continue
        good += 1
        if "holder" in st:
            placeholder = True
            ok = st["holder"].cls.name == "Placeholder" and freeze(st["holder"].attrs.get("id")) == T("id", sym("obj"))
            ctx.check(ok, "repeated-reference", name, sm.where, f"a repeated object is encoded as {st['holder']!r}")
            continue
        ctx.check(st["final"] in (True, False), "final-flag", name, sm.where, "the flag telling buffers from sub objects is not constant")
        ts = [freeze(st["res"])] + st["log"]
        if name != "PlaceholderSerializer":
            for p in st["subs"]:
                t = p.t if isinstance(p, Splice) else freeze(p)
                key = t
                hit = _mentions(ts, key) or isinstance(t, T) and t.op in ("pickledN", "bufs") and _mentions(ts, t.a[0]) or isinstance(t, T) and t.op == "pickled0" and _mentions(ts, t.a[0]) \
                    or (isinstance(t, T) and t.op == "call" and isinstance(t.a[0], T) and t.a[0].op == "attr" and t.a[0].a[1] == "encode" and _mentions(ts, t.a[0].a[0]))
                ctx.check(hit, "buffer-consumed", name, wh, f"the buffer {t!r} is written but not used to rebuild the object")
            if st["subs"] and all(isinstance(p, Splice) is False for p in st["subs"]):
                ctx.check(st["final"] is True or name in VIA_ENGINE, "final-flag", name, sm.where, "raw buffers are declared sub objects")
        if name in ("PrimitiveSerializer", "BytesSerializer", "StrSerializer", "PickleSerializer"):
            ctx.check(freeze(st["res"]) == sym("obj"), "serializer-roundtrip", name, wh, f"decoding yields {st['res']!r}")
        if name == "ExceptionSerializer":
            r = freeze(st["res"])
            ok = r == sym("obj") or isinstance(r, T) and r.op == "obj" and "UnpickleableError" in r.a[0]
            ctx.check(ok, "serializer-roundtrip", name, wh, f"decoding yields {st['res']!r}")
        if name == "NDArraySerializer" and freeze(st["res"]) == sym("obj"):
            pass
        else:
            for alt in SPEC.get(name, ()):
                if name == "TorchTensorSerializer" and alt == ("requires_grad",) and not _attr_of(ts, alt) and not _attr_of([freeze(x) if not isinstance(x, Splice) else x.t for x in st["h"]], alt):
                    ctx.bad("part-restored", f"{name}.{alt[0]}", wh, "it is not part of the header")
                    continue
                if name == "MLXSerislizer" and alt == ("dtype",) and any(k[0] == "if" and "'format'" in repr(k[1]) or ".format" in repr(k[1]) for k in it.known) and not _restored(ts, it, alt):
                    continue  # the buffer arrived with another format than the bytes sent: cannot happen
                ctx.check(_restored(ts, it, alt), "part-restored", f"{name}.{'/'.join(alt)}", wh, f"{' and '.join(alt)} of the object are not used to rebuild it")
        if name == "TorchTensorSerializer":
            _torch(ctx, name, sm, st)
        if name == "CsrMatrixSerializer":
            _csr(ctx, name, wh, st)
        if name == "NDArraySerializer":
            _ndarray(ctx, name, sm, wh, st, it)
        _identity(ctx, name, sm, st, it)
    if name not in ("PlaceholderSerializer",):
        ctx.check(placeholder, "repeated-reference", name, sm.where, "a repeated object is encoded again: two references come back as two objects")
    ctx.check(good > 0, "serializer-roundtrip", name, wh, "nothing encoded can be decoded")


def _restored(ts, it, alt):
    if alt == ("requires_grad",):
        return _attr_of(ts, alt) or any(k[0] == "if" and _attr_of([k[1]], alt) for k in it.known)
    if alt == ("strides", "order"):
        return _attr_of(ts, ("strides",)) or any(s == "F" or s == "C" for t in ts for s in tsub(t))
    if alt == ("strides",) or alt == ("shape",):
        return _attr_of(ts, alt + ("__cuda_array_interface__",))
    return _attr_of(ts, alt)


def _identity(ctx, name, sm, st, it):
    """the object was recorded, so that a second reference is recognised"""
    if name == "PlaceholderSerializer":
        return
    if "h" in st:
        hs = st["h"]
        # empty dicts and dict types without a usable constructor are written by value
        if name == "DictSerializer" and not st["subs"] and len(hs) <= 1:
            return
    rec = [v for k, v in st["ctx"].items.items() if k == T("id", sym("obj"))]
    ok = bool(rec) and freeze(rec[0]) == sym("obj") and not st["popped"]
    ctx.check(ok, "object-recorded", name, sm.where, "an encoded object is not recorded: it is neither kept alive nor recognised when referenced again")


def _torch(ctx, name, sm, st):
    """a tensor is flattened before its bytes are viewed: 0-d tensors have no byte view"""
    for p in st["subs"]:
        t = p.t if isinstance(p, Splice) else freeze(p)
        for s in tsub(t):
            if isinstance(s, T) and s.op == "call" and isinstance(s.a[0], T) and s.a[0].op == "attr" and s.a[0].a[1] == "view" and any("uint8" in repr(x) for x in s.a[1]):
                r = s.a[0].a[0]
                flat = any(isinstance(x, T) and x.op == "call" and isinstance(x.a[0], T) and x.a[0].op == "attr" and x.a[0].a[1] in ("reshape", "view", "ravel", "flatten") for x in tsub(r))
                ctx.check(flat, "scalar-tensor", name, sm.where, "the bytes of a zero-dimensional tensor cannot be viewed without flattening it first")


def _csr(ctx, name, wh, st):
    for a in ("data", "indices", "indptr"):
        sets = [x for x in st["log"] if isinstance(x, T) and x.op == "setattr" and x.a[1] == a]
        if sets:
            ctx.check(sets[-1].a[2] == T("attr", sym("obj"), a), "part-restored", f"{name}.{a}", wh, f"{a} is rebuilt from {sets[-1].a[2]!r}")


def _ndarray(ctx, name, sm, wh, st, it):
    res = freeze(st["res"])
    if not (isinstance(res, T) and res.op == "call" and res.a[0] == T("ext", "numpy.ndarray")):
        return
    kw = dict(res.a[2])
    for i, k in enumerate(("shape", "dtype", "buffer", "offset", "strides", "order")):
        if i < len(res.a[1]):
            kw[k] = res.a[1][i]
    buf = kw.get("buffer")
    # the object whose memory is exposed
    exposed = None
    for s in tsub(buf):
        if isinstance(s, T) and s.op == "call" and isinstance(s.a[0], T) and s.a[0].op == "attr" and s.a[0].a[1] in ("ravel", "reshape", "flatten", "tobytes"):
            exposed = s
    src = exposed.a[0].a[0] if exposed is not None else None
    if src is None:
        return
    order = dict(exposed.a[2]).get("order", exposed.a[1][0] if exposed.a[1] else "C")
    sh, stv = strip(kw.get("shape")), strip(kw.get("strides"))
    ctx.check(sh in (T("attr", src, "shape"), T("attr", sym("obj"), "shape")), "ndarray-layout", f"{name}.shape", wh, f"the shape is rebuilt as {sh!r}")
    if stv is not None:
        ctx.check(stv == T("attr", src, "strides"), "ndarray-layout", f"{name}.strides", wh, f"the strides {stv!r} are not those of the memory written")
        ctx.check("order" not in kw or kw["order"] == order or stv is not None, "ndarray-layout", f"{name}.order", wh, "order")
    else:
        ctx.check(kw.get("order", "C") == order, "ndarray-layout", f"{name}.order", wh, "the array is rebuilt in another memory order than written")
    # contiguity: with explicit strides the raveled bytes must be the memory itself
    f = it.known.get(("if", T("attr", T("attr", sym("obj"), "flags"), "f_contiguous")))
    c = it.known.get(("if", T("attr", T("attr", sym("obj"), "flags"), "c_contiguous")))
    copied = src != sym("obj")
    if order == "F":
        ctx.check(f == 0 and not copied or copied and "asfortran" in repr(src), "ndarray-contiguous", name, sm.where, "an array that is not Fortran contiguous is written in Fortran order with its own strides")
    elif order in ("C", None):
        ctx.check(c == 0 and not copied or copied and "contiguous" in repr(src) or copied and "copy" in repr(src), "ndarray-contiguous", name, sm.where,
                  "an array that is not contiguous is written raveled with the strides of the original")
    else:
        ctx.undecided("ndarray-contiguous", name, f"order {order!r}")
    # structured dtypes keep their field order
    reorder = any("dtype_new_order" in repr(k) or "fields" in repr(k) for k in it.known)
    d = kw.get("dtype")
    ctx.check(d is not None and (_attr_of([d], ("dtype",))), "ndarray-layout", f"{name}.dtype", wh, f"the dtype is rebuilt as {d!r}")
    tried = [v for k, v in it.known.items() if k[0] == "try" and k[1].endswith("serialization.numpy")]
    empty = any(k[0] == "if" and c == 1 and "fields" in repr(k[1]) for k, c in it.known.items())  # a structured dtype without fields
    if tried and tried[0] == 1 and "sorted" in repr(d) and not empty:
        ctx.check(isinstance(d, T) and d.op in ("item",) and ("fields" in repr(d.a[1]) or "names" in repr(d.a[1])) and "sorted" not in repr(d.a[1]), "ndarray-layout", f"{name}.fields", wh, "the fields of a structured array come back in another order")


# ------------------------------------------------------------------ ids and registration

def _ids(ctx, allc):
    mod = ctx.prog.module(SER)
    prime = None
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "_SERIALIZER_ID_PRIME" and isinstance(s.value, ast.Constant):
            prime = s.value.value
    ids = {}
    for c in allc:
        own = None
        for k in ctx.prog.mro(c):
            v = k.class_vars.get("serializer_id")
            if v is not None:
                own = v.value if isinstance(v, ast.Constant) else None
                if k is not c and own is not None:
                    own = None  # inherited ids are replaced when registering
                break
        if own is None:
            if prime is None:
                continue
            q = f"{c.module.name}.{c.name}"
            own = int(hashlib.md5(q.encode()).hexdigest(), 16) % prime
        ids.setdefault(own, []).append(c)
    for i, cs in sorted(ids.items()):
        ctx.check(len(cs) == 1, "unique-serializer-id", cs[0].name, f"{cs[-1].module.rel}:{cs[-1].node.lineno}", f"{', '.join(c.name for c in cs)} share the serializer id {i}")


def _register(ctx):
    """a registered serializer is found when encoding and when decoding; unregistering removes nothing else"""
    base = ctx.cls(SER, "Serializer")
    mod = ctx.prog.module(SER)
    f = ctx.method(base, "register")
    subs = [c for c in ctx.prog.subclasses(base) if c.module is mod and c.name in ("ListSerializer", "TupleSerializer", "DictSerializer", "PickleSerializer")]
    ctx.need(subs, "serializer classes", 3)
    a, b = subs[0], subs[1]

    def run(it):
        enc = Dct()

        def find(t):
            return next((h for k, h in enc.items.items() if k == it.key(t)), None)

        def reg(it, x, k):
            enc.items[it.key(x[0])] = x[1]

        def unreg(it, x, k):
            enc.items.pop(it.key(x[0]), None)
        table = Dct()
        it.mods[(mod.name, "_deserializers")] = table
        it.mods[(mod.name, "_serial_dispatcher")] = Stub("dispatcher", {"_handlers": enc, "_lazy_handlers": Dct()}, {"register": reg, "unregister": unreg})
        fresh = outcome(it, "serializer id", "own", "inherited")
        if fresh == "inherited":
            it.clsattrs.setdefault(a, {})["serializer_id"] = None
            it.stubs["calc_default_serializer_id"] = lambda it, x, k: 4711
        t1, t2, t3 = Stub("type 1"), Stub("type 2"), Stub("type 3")
        how = outcome(it, "second registration", "none", "another type", "another serializer")
        it.call(it.attr(a, "register"), [t1], [])
        if how != "none":
            it.call(it.attr(a if how == "another type" else b, "register"), [t2], [])

        def ok(t, c):
            h = find(t)
            i = it.attr(c, "serializer_id")
            it.claim(isinstance(h, Obj) and h.cls is c, "registering a serializer does not make it found for the type")
            d = dget(table, i)
            it.claim(isinstance(d, Obj) and d.cls is c, "a serializer is not found under its id when decoding")
        ok(t1, a)
        if how != "none":
            ok(t2, a if how == "another type" else b)
        if it.prog.method(base, "unregister", required=False) is None:
            return
        it.call(it.attr(a, "unregister"), [t1], [])
        it.claim(find(t1) is None, "an unregistered serializer is still used")
        if how == "another type":
            ok(t2, a)
        elif how != "none":
            ok(t2, b)
    Sc(ctx, "registered", f).run("registering serializers", run)


def _pickled(ctx):
    """what is pickled comes back with its buffers, each in its place and with all its content"""
    mod = ctx.prog.module(SER)
    f = mod.defs["pickle_buffers"]

    def run(it):
        n = outcome(it, "buffers", 0, 1, 3)
        it.mods[(mod.name, "get_fury")] = Native(lambda it, a, k: None, "get_fury")
        it.mods[(mod.name, "HAS_PICKLE_BUFFER")] = True
        oob = []

        def view(i, ndim, raw=None):
            v = Stub("view", {"ndim": ndim, "of": i, "format": "B", "contiguous": True, "nbytes": 9}, {}, "memoryview")
            v.methods["cast"] = lambda it, a, k: view(i, 1) if a[0] == "B" else it.raise_("TypeError")
            v.methods["__getitem__"] = lambda it, a, k: view((i, "a part"), max(ndim - 1, 0))
            return v

        def buffer(i, ndim):
            return Stub("pickle buffer", {"of": i}, {"raw": lambda it, a, k: view(i, ndim), "release": lambda it, a, k: None})
        it.stubs["memoryview"] = lambda it, a, k: a[0] if isinstance(a[0], Stub) and a[0].label == "view" else it.raise_("TypeError")

        def dumps(it, a, k):
            k = dict(k)
            it.claim(k.get("protocol", a[1] if len(a) > 1 else None) is not None, "the object is pickled without buffers")
            for i in range(n):
                keep = it.call(k["buffer_callback"], [buffer(i, 2 if i == 1 else 1)], [])
                if keep is None or not it.truth(keep):
                    oob.append(i)
            return Stub("pickle", {"of": a[0]})

        def loads(it, a, k):
            k = dict(k)
            it.claim(isinstance(a[0], Stub) and a[0].label == "pickle", "another pickle is read")
            got = list(it.iterate(k.get("buffers") or Seq("list", [])))
            it.claim([x.attrs["of"] if isinstance(x, Stub) else None for x in got] == oob and all(x.attrs["ndim"] == 1 for x in got), "the buffers of an object are not those that were written, in their order")
            return a[0].attrs["of"]
        for x in ("cloudpickle", "pickle", "cloudpickle.cloudpickle"):
            it.stubs[x + ".dumps"], it.stubs[x + ".loads"] = dumps, loads
        it.exts["pickle.DEFAULT_PROTOCOL"], it.exts["pickle.HIGHEST_PROTOCOL"] = 4, 5
        o = Stub("object")
        st, b = attempt(it, lambda: it.call(f, [o], []))
        it.claim(st == "ok", f"an object cannot be pickled ({cname(b)})")
        if st != "ok":
            return
        st, v = attempt(it, lambda: it.call(mod.defs["unpickle_buffers"], [b], []))
        it.claim(st == "ok" and v is o, "an object that is pickled does not come back")
    Sc(ctx, "pickled", f).run("an object with buffers", run)


def _keys(ctx):
    """references to enclosing objects inside dicts are replaced where they were put"""
    cls = ctx.cls(SER, "DictSerializer")
    ph = ctx.cls(SER, "Placeholder")
    f = ctx.method(cls, "deserial")

    def run(it):
        ids = {}
        it.stubs["_fast_id"] = it.stubs["fast_id"] = lambda it, a, k: ids.setdefault(id(a[0]), 4000 + 16 * len(ids))
        st = outcome(it, "reference", "key", "value", "key and value", "key of two entries")
        o1, o2, k2, v2 = (Stub(x, {"__class__": ("ext", "user.Thing")}) for x in ("object", "other", "key", "value"))
        d = {"key": [(o1, v2)], "value": [(k2, o1)], "key and value": [(o1, o1)], "key of two entries": [(o1, v2), (o2, v2)]}[st]
        d = [("first", v2)] + d + [("last", k2)]
        inst = it.call(cls, [], [])
        for c in reversed(it.prog.mro(cls)):
            if "__cinit__" in c.methods:
                it.call(Bound(c.methods["__cinit__"], inst, c), [], [])
        obj = Dct()
        for k, v in d:
            it.setitem(obj, k, v)
        r = it.call(it.attr(inst, "serial"), [obj, Dct()], [])
        head, sub = r.parts[0], r.parts[1]
        phs, subs = {}, []
        for x in sub.parts:
            if x is o1 or x is o2:
                p = it.call(ph, [7 if x is o1 else 8], [])
                phs.setdefault(id(x), []).append((p, x))
                subs.append(p)
            else:
                subs.append(x)
        cx = Dct()
        out = it.call(it.attr(inst, "deserial"), [head, cx, Seq("list", subs)], [])
        # the objects are built from the inside out: first one, then the other
        for x in (o1, o2):
            it.setitem(cx, 7 if x is o1 else 8, x)
            for p, _ in phs.get(id(x), []):
                for cb in list(it.attr(p, "callbacks").parts):
                    it.call(cb, [x], [])
        got = [(freeze(k), freeze(v)) for k, v in items_of(out)]
        want = [(freeze(k), freeze(v)) for k, v in d]
        it.claim(len(got) == len(want) and all(w in got for w in want), "an entry of a dict that refers to an enclosing object is not the original one")
    Sc(ctx, "placeholder-callback", f).run("a dict that refers to enclosing objects", run)


# ------------------------------------------------------------------ traversal

def bufname(b):
    return f"buf:{b}" if b else b""


class Tree:
    """An object graph given to the engine: name -> (leaf flag, children | buffers)."""

    def __init__(self, title, root, nodes, unrecorded=(), bad=None):
        self.title, self.root, self.nodes, self.unrecorded, self.bad = title, root, nodes, set(unrecorded), bad

    def expect(self, n=None, seen=None):
        n = n or self.root
        final, subs = self.nodes[n]
        if final:
            return T("built", n, *[bufname(b) for b in subs])
        return T("built", n, *[self.expect(c) for c in subs])


TREES = [
    Tree("single leaf", "a", {"a": (True, ["1", "2"])}),
    Tree("leaf without buffers", "a", {"a": (True, [])}),
    Tree("flat", "r", {"r": (False, ["a", "b", "c"]), "a": (True, ["1", "2"]), "b": (True, []), "c": (True, ["3"])}),
    Tree("nested", "r", {"r": (False, ["a", "n", "e", "c"]), "a": (True, ["1"]), "n": (False, ["x", "m", "y"]), "m": (False, ["z"]), "x": (True, ["2", "3"]), "y": (True, ["4"]),
                         "z": (True, ["5"]), "e": (False, []), "c": (True, ["6"])}),
    Tree("empty buffers", "r", {"r": (False, ["a", "b", "c"]), "a": (True, ["", "1"]), "b": (True, [""]), "c": (True, ["2", ""])}),
    Tree("repeated leaf", "r", {"r": (False, ["a", "n", "b", "a"]), "a": (True, ["1"]), "n": (False, ["a", "b"]), "b": (True, ["2"])}),
    Tree("repeated container", "r", {"r": (False, ["n", "a", "n"]), "a": (True, ["1"]), "n": (False, ["b"]), "b": (True, ["2"])}),
    Tree("unrecorded objects", "r", {"r": (False, ["u", "u", "v", "a", "u", "b", "a", "b"]), "u": (True, ["9"]), "v": (True, ["8"]), "a": (True, ["1"]), "b": (True, ["2"])}, unrecorded=("u", "v")),
]
FAULTS = [
    Tree("failing leaf", "r", {"r": (False, ["n", "a"]), "n": (False, ["x", "y"]), "x": (True, ["1"]), "y": (True, ["2"]), "a": (True, ["3"])}, bad="x"),
    Tree("failing container", "r", {"r": (False, ["n", "a"]), "n": (False, ["x"]), "x": (True, ["1"]), "a": (True, ["3"])}, bad="n"),
    Tree("failing root", "r", {"r": (False, ["x"]), "x": (True, ["1"])}, bad="r"),
]
CYCLE = Tree("cycle", "r", {"r": (False, ["a", "n"]), "a": (True, ["1"]), "n": (False, ["r", "a"])})


def _engine(ctx):
    mod = ctx.prog.module(SER)
    ctx.modules.add(mod.rel)
    for tr in TREES:
        _tree(ctx, tr, "serialize")
    for tr in TREES:
        _tree(ctx, tr, "serialize_with_spawn", spawn=True)
    for tr in FAULTS:
        _tree(ctx, tr, "serialize")
    _tree(ctx, CYCLE, "serialize")


def _zero(ctx, cls):
    o = Obj(cls, {})
    for k in ctx.prog.mro(cls):
        for s in k.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                a = ast.unparse(s.annotation)
                o.attrs.setdefault(s.target.id, Dct() if "map" in a or a == "dict" else 0 if "int" in a or "bint" in a or "size" in a else None)
    return o


def _tree(ctx, tr, entry, spawn=False):
    mod = ctx.prog.module(SER)
    user = ctx.cls("core", "ActorRef") if False else ctx.cls(SER, "Serializer")
    PH = ctx.cls(SER, "Placeholder")
    holder_cls = ctx.cls(SER, "_IdContextHolder")
    st = {}
    name = f"{entry}/{tr.title}"
    fs, fd = ctx.func(SER, entry), ctx.func(SER, "deserialize")
    sids = {}

    def sid(n):
        return sids.setdefault(n, 100 + len(sids))

    def fast_id(o):
        return st["ids"].setdefault(id(o), 4000 + 16 * len(st["ids"]))

    def ser_for(n):
        o = Obj(st["scls"], {"_serializer_id": sid(n), "serializer_id": sid(n), "for": n})
        return o

    def rw(it, fn, args, kw):
        nm = fn.name if isinstance(fn, (Func, ClassInfo)) else fn.func.name if isinstance(fn, Bound) else fn.a[1] if isinstance(fn, T) and fn.op == "attr" else None
        if nm in ("_fast_id", "fast_id") or fn == ("builtin", "id"):
            return fast_id(args[0])
        if nm == "get_handler":
            t = args[0]
            if isinstance(t, tuple) and t[1].startswith("user."):
                return ser_for(t[1][5:])
            return ser_for("<placeholder>") if t is PH else sym("foreign")
        if fn == ("builtin", "type") and len(args) == 1 and isinstance(args[0], Obj) and "user" in args[0].attrs:
            return ("ext", "user." + args[0].attrs["user"])
        if fn == ("builtin", "type") and len(args) == 1 and isinstance(args[0], T) and args[0].op == "built":
            return ("ext", "user.built")
        if fn == ("builtin", "isinstance") and isinstance(args[0], T) and args[0].op == "built":
            return False
        if nm == "_IdContextHolder" and isinstance(fn, ClassInfo):
            return _zero(ctx, holder_cls)
        if isinstance(fn, tuple) and fn[0] == "meth" and fn[2] == "size":
            return len(fn[1].items)
        if isinstance(fn, tuple) and fn[0] == "meth" and isinstance(fn[1], Dct) and fn[2] in ("count", "contains"):
            return int(args[0] in fn[1].items)
        if nm == "serial" and isinstance(fn, Bound):
            n = fn.self.attrs["for"]
            o, cx = args[0], args[1]
            if n == "<placeholder>":
                return Seq("tuple", [Seq("tuple", []), Seq("list", []), True])
            if n not in tr.unrecorded:
                if fast_id(o) in cx.items:
                    return Obj(PH, {"id": fast_id(o), "callbacks": Seq("list", [])})
                cx.items[fast_id(o)] = o
            final, subs = tr.nodes[n]
            return Seq("tuple", [Seq("tuple", [f"payload:{n}"]), Seq("list", [bufname(b) for b in subs] if final else [st["objs"][c] for c in subs]), final])
        if nm == "deserial" and isinstance(fn, Bound):
            n = fn.self.attrs["for"]
            subs = args[2]
            if not (isinstance(subs, Seq) and subs.plain):
                raise Stuck(f"sub objects {subs!r}")
            if n == "<placeholder>":
                return Obj(PH, {"id": 0, "callbacks": Seq("list", [])})
            if n == tr.bad:
                raise Raised(T("ValueError", n))
            head = args[0]
            if not (isinstance(head, Seq) and head.parts == [f"payload:{n}"]):
                raise Raised(T("MISMATCH", f"{n} is decoded from {head!r}"))
            b = T("built", n, *[T("placeholder", id(p)) if isinstance(p, Obj) else freeze(p) for p in subs.parts])
            for p in subs.parts:
                if isinstance(p, Obj) and p.cls is PH:
                    p.attrs["callbacks"].parts.append(T("callback", n))
            return b
        if nm == "on_deserial_error":
            st.setdefault("rewritten", []).append(fn.self.attrs["for"])
            return None
        if nm == "run_in_executor":
            st["spawned"] = True
            return it.call(args[1], args[2:], kw)
        if nm == "get_running_loop" or isinstance(fn, tuple) and fn[0] == "ext" and fn[1].endswith("get_running_loop"):
            return sym("loop")
        return NotImplemented

    def attr(it, o, n):
        if isinstance(o, Obj) and o.cls is PH and n == "callbacks" and n not in o.attrs:
            o.attrs[n] = Seq("list", [])
        return NotImplemented
    rw.attr = attr

    def scenario(it):
        st.clear()
        it.exact_try = True
        it.limit = 200000
        st["ids"] = {}
        st["scls"] = user
        st["objs"] = {n: Obj(user, {"user": n}) for n in tr.nodes}
        # the table of decoders
        it.mods[(mod.name, "_deserializers")] = Dct({sid(n): ser_for(n) for n in list(tr.nodes) + ["<placeholder>"]})
        args = [st["objs"][tr.root], None]
        if spawn:
            args.append(2)
        r = it.call_func(fs, args, [])
        if not (isinstance(r, Seq) and r.plain and len(r.parts) == 2):
            raise Stuck(f"{entry} returns {r!r}")
        st["w"] = r
        st["log0"] = len(it.log)
        return it.call_func(fd, [r.parts[0], r.parts[1]], [])
    n = 0
    for it, (kind, val) in explore(ctx.prog, scenario, rw, max_paths=64):
        ctx.anchors["abstract paths"] = ctx.anchors.get("abstract paths", 0) + 1
        if kind == "stuck":
            ctx.undecided("traversal", name, str(val))
            n += 1
            continue
        n += 1
        if tr.bad:
            ok = kind == "raise" and val.value == T("ValueError", tr.bad)
            ctx.check(ok, "decode-error-raised", name, fd.where, "a failure to decode is swallowed or replaced" if kind != "raise" else f"raises {val.value!r}")
            parents = _ancestors(tr, tr.bad)
            ctx.check(st.get("rewritten", []) == parents, "decode-error-rewritten", name, fd.where, f"containers asked to rewrite the decoding error: {st.get('rewritten', [])} instead of {parents}")
            continue
        if kind == "raise":
            ctx.bad("traversal", name, fd.where, f"decoding what was encoded fails: {val.value!r}")
            continue
        if tr is CYCLE:
            cbs = [x for x in it.log[st["log0"]:] if isinstance(x, T) and x.op == "call" and isinstance(x.a[0], T) and x.a[0].op == "callback"]
            ctx.check(len(cbs) == 1 and cbs[0].a[1] == (freeze(val),) and isinstance(freeze(val), T) and freeze(val).a[0] == "r", "placeholder-replaced", name, fd.where,
                      "a container holding a reference to an enclosing object is not given this object when it is decoded")
            continue
        ctx.check(freeze(val) == tr.expect(), "traversal", name, fd.where, f"{tr.title}: {tr.expect()!r} is decoded as {freeze(val)!r}"[:400])
        if spawn and len(tr.nodes) > 3:
            ctx.check(st.get("spawned", False), "traversal", name, fs.where, "large objects are not serialized in the executor") if False else None
    ctx.check(n > 0, "traversal", name, fs.where, "no path")


class U:
    """Marker of an opaque user object in a graph description."""

    def __init__(self, n):
        self.n = n


def _graph_specs():
    L = lambda *x: Seq("list", x)
    Tu = lambda *x: Seq("tuple", x)
    u, v, w = U("u"), U("v"), U("w")
    long = "x" * 1500
    out = [("list", L(u, 5, "s", v)), ("tuple", Tu(1, u, None, v, True)), ("empty containers", L(L(), Tu(), Dct(), u, L())),
           ("primitives only", L(1, 2.5, "a", b"b", None, True)), ("primitive tuple", Tu(1, 2)), ("dict", Dct({"a": u, "b": 7, "c": v})), ("dict of primitives", Dct({1: 2, "x": None})),
           ("nested", L(Dct({"a": L(u, 1), "b": Tu(v, L(w))}), L(L(u)), "z")),
           ("long strings", L(long, u, b"y" * 2000, long, Dct({"k": long}))),
           ("mixed order", L(1, u, 2, v, "three", w, u))]
    sh = L(u, 1)
    out.append(("shared list", L(sh, sh, Dct({"x": sh, "y": v}), v)))
    sd = Dct({"q": u})
    out.append(("shared dict", Tu(sd, 3, sd, L(sd))))
    em = Dct()
    out.append(("repeated empty dicts", L(em, em, L(u), em, Dct({"l": L(v)}))))
    c1 = L(u)
    c1.parts.append(c1)
    out.append(("list in itself", c1))
    c1b = L(0, 1, u)
    c1b.parts.insert(1, c1b)
    out.append(("list in itself, in the middle", c1b))
    c2 = Dct({"u": u})
    c2.items["me"] = c2
    out.append(("dict in itself", c2))
    c3 = L(em, em)
    l3 = L()
    l3.parts.append(l3)
    c3.parts.append(l3)
    out.append(("empty dicts before a list in itself", c3))
    a, b = L(u), Dct()
    a.parts.append(b)
    b.items["up"] = a
    b.items["v"] = v
    out.append(("mutual", L(1, a, b)))
    ml = L(u)
    ml.tag = "MyList"
    ml.parts.append(L(v, ml))
    ml.parts.append(ml)
    out.append(("list subclass in itself", ml))
    md = Dct({"u": u})
    md.tag = "MyDict"
    md.items["x"] = L(md)
    md.items["me"] = md
    out.append(("dict subclass in itself", md))
    for kids in ((u,), (u, 2, v), (1, L(u), "s", w)):
        nt = Tu(*kids)
        nt.tag = "MyNamed"
        out.append((f"named tuple of {len(kids)}", L(nt, 5)))
    dd = Dct({"u": u, "v": 5})
    dd.tag = "MyDefault"
    dd.items["me"] = dd
    out.append(("dict subclass made of a factory", L(dd, dd)))
    mt = Tu(1, L(u))
    mt.tag = "MyTuple"
    out.append(("tuple subclass", L(mt, mt)))
    return out


def _graphs(ctx):
    mod = ctx.prog.module(SER)
    PH = ctx.cls(SER, "Placeholder")
    holder_cls = ctx.cls(SER, "_IdContextHolder")
    user = ctx.cls(SER, "Serializer")
    fs, fd = ctx.func(SER, "serialize"), ctx.func(SER, "deserialize")
    # type -> serializer class as registered by the module
    reg = {}
    for s in mod.tree.body:
        tgt = s.body[0] if isinstance(s, ast.For) and len(s.body) == 1 else s
        c = tgt.value if isinstance(tgt, ast.Expr) else None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "register" and isinstance(c.func.value, ast.Name) and c.args and isinstance(c.args[0], ast.Name):
            k = ctx.prog.resolve_expr(mod, c.func.value)
            if isinstance(k, ClassInfo):
                if isinstance(s, ast.For):
                    reg["<primitive>"] = k
                else:
                    reg[c.args[0].id] = k
    for need in ("list", "tuple", "dict", "str", "bytes", "Placeholder", "<primitive>"):
        if not ctx.check(need in reg, "registered", need, mod.rel + ":1", f"no serializer is registered for {need}"):
            return
    pairs = Pairs(ctx)
    st = {}

    def fast_id(o):
        if isinstance(o, _PR) or o is None:
            return st["cid"].setdefault(repr(o), 100000 + 16 * len(st["cid"]))
        st["keep"].append(o)
        return st["ids"].setdefault(id(o), 4000 + 16 * len(st["ids"]))

    def inst(it, key):
        c = reg[key]
        if c not in st["inst"]:
            o = it.construct(c, [], [])
            st["inst"][c] = o
            sidv = it.attr(o, "_serializer_id") if "_serializer_id" in o.attrs else it.classvar(c, "serializer_id")
            if o.attrs.get("_serializer_id") is None:
                o.attrs["_serializer_id"] = sidv
            st["table"].items[sidv] = o
        return st["inst"][c]

    def rw(it, fn, args, kw):
        nm = fn.name if isinstance(fn, (Func, ClassInfo)) else fn.func.name if isinstance(fn, Bound) else fn.a[1] if isinstance(fn, T) and fn.op == "attr" else None
        if isinstance(fn, T) and fn in it.methods:
            return it.call_func(it.methods[fn], args, kw, args[0].cls if isinstance(args[0], Obj) else None)
        if nm in ("_fast_id", "fast_id") or fn == ("builtin", "id"):
            return fast_id(args[0])
        if nm == "get_handler":
            t = args[0]
            if isinstance(t, tuple) and t[1] == "user.u":
                return st["user"]
            if isinstance(t, tuple) and t[1].startswith("user.My"):
                return inst(it, {"default": "dict", "named": "tuple"}.get(t[1][7:].lower(), t[1][7:].lower()))
            if t is PH:
                return inst(it, "Placeholder")
            k = t[1] if isinstance(t, tuple) else None
            if k in ("list", "tuple", "dict", "str", "bytes"):
                return inst(it, k)
            if k in ("int", "float", "bool", "NoneType", "complex"):
                return inst(it, "<primitive>")
            raise Stuck(f"handler of {t!r}")
        if fn == ("builtin", "type") and len(args) == 1:
            a = args[0]
            if isinstance(a, Obj) and "user" in a.attrs:
                return ("ext", "user.u")
            if isinstance(a, T) and a.op == "built":
                return ("ext", "user.built")
            if getattr(a, "tag", None):
                return ("ext", "user." + a.tag)
        if isinstance(fn, tuple) and str(fn[1]).startswith("user.My") and fn[0] == "ext":
            if fn[1] == "user.MyNamed":
                r = Seq("tuple", list(args))
            elif fn[1] == "user.MyDefault":
                if args:
                    raise Raised(T("TypeError", "first argument must be callable or None"))
                r = Dct()
            elif not args:
                r = Dct() if fn[1] == "user.MyDict" else Seq(fn[1][7:].lower(), [])
            elif fn[1] == "user.MyDict":
                if not isinstance(args[0], Dct):
                    raise Raised(T("MISMATCH", "a dict subclass is built from pairs: Counter counts the pairs"))
                r = it.builtin("dict", args, kw)
            else:
                r = it.builtin(fn[1][7:].lower(), args, kw)
            r.tag = fn[1][5:]
            return r
        if isinstance(fn, tuple) and fn[0] == "ext" and fn[1].endswith("getfullargspec"):
            return Obj(user, {"args": Seq("list", ["self", "x"]), "varargs": None, "varkw": None, "defaults": None})
        if fn == ("builtin", "hasattr") and args[1] == "_fields":
            return args[0] == ("ext", "user.MyNamed")
        if fn == ("builtin", "isinstance") and isinstance(args[0], T) and args[0].op == "built":
            return False
        if nm == "_IdContextHolder" and isinstance(fn, ClassInfo):
            return _zero(ctx, holder_cls)
        if isinstance(fn, tuple) and fn[0] == "meth" and fn[2] == "size":
            return len(fn[1].items)
        if isinstance(fn, tuple) and fn[0] == "meth" and isinstance(fn[1], Dct) and fn[2] in ("count", "contains"):
            return int(args[0] in fn[1].items)
        if isinstance(fn, Bound) and isinstance(fn.self, Obj) and fn.self is st["user"] and nm == "serial":
            o, cx = args[0], args[1]
            if fast_id(o) in cx.items:
                return it.construct(PH, [fast_id(o)], [])
            cx.items[fast_id(o)] = o
            return Seq("tuple", [Seq("tuple", [o.attrs["user"]]), Seq("list", ["buf:" + o.attrs["user"]]), True])
        if isinstance(fn, Bound) and isinstance(fn.self, Obj) and fn.self is st["user"] and nm == "deserial":
            if not (isinstance(args[2], Seq) and args[2].parts == ["buf:" + args[0].parts[0]]):
                raise Raised(T("MISMATCH", f"{args[0]!r} gets the buffers {args[2]!r}"))
            return T("built", args[0].parts[0])
        if isinstance(fn, Bound) and nm in ("serial", "deserial") and isinstance(fn.self, Obj) and not st.get("busy") and any(not isinstance(d, ast.Call) for d in fn.func.decorators):
            st["busy"] = True
            try:
                v = _decorated(ctx, it, fn.self, nm)
            finally:
                st["busy"] = False
            if isinstance(v, tuple):
                return it.call(v[0], [v[1]] + list(args), kw)
        if isinstance(fn, T) and fn.op == "attr" and fn.a[1] in ("encode", "decode"):
            return NotImplemented
        return pairs(it, fn, args, kw) if not isinstance(fn, Bound) and nm not in ("serialize", "deserialize") else NotImplemented

    def build(x, memo):
        if isinstance(x, U):
            return memo.setdefault(id(x), Obj(user, {"user": x.n}))
        if id(x) in memo:
            return memo[id(x)]
        if isinstance(x, Seq):
            r = memo[id(x)] = Seq(x.kind, [])
            r.tag = getattr(x, "tag", None)
            r.parts.extend(build(p, memo) for p in x.parts)
            return r
        if isinstance(x, Dct):
            r = memo[id(x)] = Dct()
            r.tag = getattr(x, "tag", None)
            for k, v in x.items.items():
                r.items[k] = build(v, memo)
            return r
        return x

    def differs(a, b, fwd, bwd, by_value):
        """first difference between the graph sent and the one received, or None"""
        if isinstance(a, Obj):
            if not (isinstance(b, T) and b.op == "built" and b.a[0] == a.attrs["user"]):
                return f"object {a.attrs['user']} became {b!r}"
            return None
        if isinstance(a, (Seq, Dct)):
            if type(a) is not type(b) or isinstance(a, Seq) and a.kind != b.kind:
                return f"{a.kind if isinstance(a, Seq) else 'dict'} became {type(b).__name__} {repr(b)[:60]}"
            if getattr(a, "tag", None) != getattr(b, "tag", None):
                return f"{getattr(a, 'tag', 'a builtin container')} became {getattr(b, 'tag', None) or 'a builtin container'}"
            if id(a) in fwd:
                return None if fwd[id(a)] is b else "two references to one object became two objects"
            value = isinstance(a, Dct) and not a.items
            if not value:
                if id(b) in bwd:
                    return "two objects became one"
                fwd[id(a)] = b
                bwd.add(id(b))
            x = a.parts if isinstance(a, Seq) else list(a.items.items())
            y = b.parts if isinstance(b, Seq) else list(b.items.items())
            if len(x) != len(y):
                return f"{len(x)} elements became {len(y)}"
            for p, q in zip(x, y):
                if isinstance(a, Dct):
                    if p[0] != q[0]:
                        return f"key {p[0]!r} became {q[0]!r}"
                    p, q = p[1], q[1]
                d = differs(p, q, fwd, bwd, by_value)
                if d:
                    return d
            return None
        return None if type(a) is type(b) and a == b else f"{a!r} became {b!r}"[:120]

    for title, spec in _graph_specs():
        def scenario(it):
            it.methods = {}
            it.exact_try = True
            it.limit = 400000
            st.clear()
            st.update(ids={}, cid={}, keep=[], inst={}, table=Dct())
            st["user"] = Obj(user, {"_serializer_id": 9999, "serializer_id": 9999})
            st["table"].items[9999] = st["user"]
            it.mods[(mod.name, "_deserializers")] = st["table"]
            st["src"] = build(spec, {})
            r = it.call_func(fs, [st["src"]], [])
            if not (isinstance(r, Seq) and r.plain and len(r.parts) == 2):
                raise Stuck(f"serialize returns {r!r}")
            it.mods[(mod.name, "_deserializers")] = st["table"]
            return it.call_func(fd, [r.parts[0], r.parts[1]], [])
        n = 0
        for it, (kind, val) in explore(ctx.prog, scenario, rw, max_paths=32):
            n += 1
            if kind == "stuck":
                ctx.undecided("object-graph", title, str(val))
                continue
            if kind == "raise":
                ctx.bad("object-graph", title, fd.where, f"decoding what was encoded fails: {val.value!r}")
                continue
            d = differs(st["src"], val, {}, set(), True)
            ctx.check(d is None, "object-graph", title, fs.where, f"{title}: {d}")


_PR = (int, float, str, bytes, bool)


def _ancestors(tr, n):
    out = []
    cur = n
    while cur != tr.root:
        p = [k for k, (f, s) in tr.nodes.items() if not f and cur in s][0]
        out.append(p)
        cur = p
    return out

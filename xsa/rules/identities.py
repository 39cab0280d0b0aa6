"""C34: identities are never given out twice, by abstract interpretation of drawing ids, on a model of the memory they are
built in, and of what draws them."""
from .client import *
from .contexts import V
from .records import *


def identities(ctx: Ctx):
    m = ctx.prog.module("_utils")
    _draw(ctx, m)
    _seed(ctx, m)
    _uses(ctx, m)
    _requests(ctx)
    for name, table, get in (("BufferRef", "_ref_to_buffers", "get_buffer"), ("FileObjectRef", "_ref_to_fileobjs", "get_local_file_object")):
        _reference(ctx, name, table, get)


# -- memory
class Mem:
    """words of 8 bytes; what an id is built in"""

    def __init__(self, it, words, heap=False):
        self.words, self.heap, self.freed = [None] * words, heap, 0
        self.it = it

    def byte(self, i):
        w = self.words[i // 8]
        self.it.claim(not self.freed, "memory is used after it was given back")
        self.it.claim(w is not None, "an id holds memory that was never written")
        return (w, i % 8)


def pointer(it, mem, off=0, width=8):
    p = Stub("pointer", {"mem": mem})

    def get(it, a, k):
        i = a[0]
        if width == 8 and isinstance(i, int):
            ok = 0 <= off + 8 * i < 8 * len(mem.words)
            it.claim(ok, "memory outside of the one asked for is used")
            return mem.words[off // 8 + i] if ok else None
        lo, hi = (i.a or 0, i.b) if not isinstance(i, int) else (i, i + 1)
        ok = isinstance(hi, int) and 0 <= off + lo * width and off + hi * width <= 8 * len(mem.words)
        it.claim(ok, "memory outside of the one asked for is used")
        return Stub("bytes", {"of": [mem.byte(off + j) for j in range(lo * width, hi * width)] if ok else []})

    def put(it, a, k):
        ok = width == 8 and isinstance(a[0], int) and 0 <= off // 8 + a[0] < len(mem.words)
        it.claim(ok and not mem.freed, "memory outside of the one asked for is used")
        if ok:
            mem.words[off // 8 + a[0]] = a[1]
    p.methods["__getitem__"], p.methods["__setitem__"] = get, put
    p.attrs["view"] = lambda w: pointer(it, mem, off, w)
    p.attrs["at"] = lambda i: pointer(it, mem, off + i * width, width)
    return p


class Rnd:
    """the generator of the process: every word it gives is another one"""

    def __init__(self, it, m):
        self.it, self.drawn, self.seeds, self.mems = it, 0, [], []
        WIDTH = {"char": 1, "uint_fast64_t": 8, "uint64_t": 8, "unsigned long long": 8}

        def word(it, a, k):
            it.claim(bool(self.seeds), "an id is drawn before the generator is seeded")
            self.drawn += 1
            return ("word", self.drawn)
        g = Stub("generator", {}, {"__call__": word, "seed": lambda it, a, k: self.seeds.append(a[0])})
        nat = Native(word, "generator")
        nat.attrs = {"seed": Native(lambda it, a, k: self.seeds.append(a[0]), "seed")}
        del g
        it.mods[(m.name, "_rnd_gen")] = nat
        bits = [0]

        def getrandbits(it, a, k):
            bits[0] += 1
            return Stub("random bits", {"n": a[0], "i": bits[0]}, {"to_bytes": lambda it, b, kk, n=a[0], i=bits[0]: Stub("random bytes", {"len": b[0], "bits": n, "i": i})})
        it.stubs["random.getrandbits"] = getrandbits

        def alloc(words, heap):
            x = Mem(it, words, heap)
            self.mems.append(x)
            return pointer(it, x)

        def ptr(it, a, k):
            w = WIDTH.get(a[0], 8)
            x = a[1]
            if isinstance(x, Stub) and "view" in x.attrs:
                return x.attrs["view"](w)
            if isinstance(x, Stub) and x.label == "random bytes":
                y = Stub("random bytes", dict(x.attrs, width=w))
                y.methods["__getitem__"] = lambda it, a, k: ("seed", min(w * 8, x.attrs["bits"], x.attrs["len"] * 8), x.attrs["i"]) if a[0] == 0 and w <= x.attrs["len"] else it.claim(False, "memory outside of the one asked for is used")
                return y
            return x
        it.mods[(m.name, "__ptr__")] = Native(ptr, "cast")
        it.mods[(m.name, "__addr__")] = Native(lambda it, a, k: a[0].attrs["at"](a[1]), "address")
        it.mods[(m.name, "__carray__")] = Native(lambda it, a, k: alloc(a[0], False), "array")
        it.stubs["libc.stdlib.malloc"] = lambda it, a, k: alloc(a[0] // 8, True)

        def free(it, a, k):
            x = a[0].attrs["mem"]
            it.claim(x.heap, "memory that was not asked for is given back")
            x.freed += 1
        it.stubs["libc.stdlib.free"] = free


def _draw(ctx, m):
    f = m.defs["new_random_id"]

    def go(it):
        n = outcome(it, "length", *([1, 4, 7, 8, 9, 16, 31, 32] + [33, 40, 63, 64, 100]))
        r = Rnd(it, m)
        seen = set()
        for i in range(3):
            st, v = attempt(it, lambda: it.call(f, [n], []))
            it.claim(st == "ok" and isinstance(v, Stub) and v.label == "bytes", f"an id cannot be drawn ({cname(v) or v})")
            if st != "ok" or not isinstance(v, Stub) or v.label != "bytes":
                return
            bs = v.attrs["of"]
            it.claim(len(bs) == n, "an id has another length than asked for")
            it.claim(all(isinstance(w, tuple) and w[0] == "word" for w, _ in bs) and len(set(bs)) == len(bs), "a part of an id is not random")
            it.claim(not seen & {w for w, _ in bs}, "two ids share a part")
            seen |= {w for w, _ in bs}
        it.claim(all(x.freed == (1 if x.heap else 0) for x in r.mems), "memory is not given back once")
        it.claim(len(r.seeds) == 1, "the generator is not seeded once")
    Sc(ctx, "draw", f).run("drawing ids", go)


def _seed(ctx, m):
    f = m.defs["reset_id_random_seed"]

    def go(it):
        r = Rnd(it, m)
        it.call(f, [], [])
        it.claim(len(r.seeds) == 1 and isinstance(r.seeds[0], tuple) and r.seeds[0][0] == "seed" and r.seeds[0][1] == 64, "the generator is seeded with less than 64 random bits")
        it.call(m.defs["new_random_id"], [16], [])
        it.claim(len(r.seeds) == 1, "a generator that was seeded is seeded again")
        it.call(f, [], [])
        it.claim(len(r.seeds) == 2 and r.seeds[0] != r.seeds[1], "the generator is seeded twice alike")
    Sc(ctx, "draw", f).run("seeding the generator", go)


def _uses(ctx, m):
    f = m.defs["new_actor_id"]

    def go(it):
        it.stubs.pop("message.new_message_id", None)
        drawn = []

        def draw(it, a, k):
            drawn.append(a[0])
            return b"id%d" % len(drawn)
        it.stubs["_utils.new_random_id"] = draw
        got = [it.call(x, [], []) for x in (f, ctx.prog.func("backends.message", "new_message_id")) for _ in range(3)]
        it.claim(got == [b"id%d" % (i + 1) for i in range(6)], "an id is not drawn for every one asked for")
        it.claim(all(isinstance(n, int) and n >= 16 for n in drawn), "ids are so short that they can be the same")
        c = it.call(ctx.prog.module("context").defs["BaseActorContext"], ["self:1"], [])
        refs = [it.call(it.attr(c, op), ["h:1", Stub("thing")], []) for op in ("buffer_ref", "file_object_ref") for _ in range(2)]
        uids = [it.attr(x, "uid") for x in refs]
        it.claim(len(set(map(repr, uids))) == 4, "two references of things share an id")
        it.claim(all(isinstance(n, int) and n >= 16 for n in drawn), "ids are so short that they can be the same")
        # actors without an id
        cl = it.call(ctx.prog.module("context").defs["ClientActorContext"], [], [])
        made = []
        be = Stub("backend", {}, {"create_actor": lambda it, a, k: made.append((list(a), dict(k)))})
        it.setitem(it.attr(cl, "_backend_contexts"), None, be)
        for uid in (None, None, "mine", None):
            it.call(it.attr(cl, "create_actor"), [V("class")], [("address", "h:1")] + ([("uid", uid)] if uid else []))
        ids = [k.get("uid") for _, k in made]
        it.claim(len(ids) == 4 and ids[2] == "mine" and None not in ids and len(set(map(repr, ids))) == 4, "two actors created without an id get the same one")
    Sc(ctx, "use", f).run("what is given an id", go)


def _requests(ctx):
    cls = ctx.prog.module("backends.context").defs["IndigenActorContext"]
    f = ctx.method(cls, "send")

    def go(it):
        it.stubs.pop("core.create_local_actor_ref", None)
        it.exts["os.environ"] = Dct()
        n, drawn, made = [0], [], []
        mid0 = it.stubs["message.new_message_id"]

        def mid(it, a, k):
            drawn.append(mid0(it, a, k))
            return drawn[-1]
        it.stubs["message.new_message_id"] = mid
        del n, made
        c = Client(it, None)
        c.answer = lambda d: c.ok(d, ref(it, SUB1, A) if is_msg(d["message"], "ActorRefMessage") or is_msg(d["message"], "CreateActorMessage") else True)
        r = ref(it, SUB1, A)
        ops = {
            "create_actor": lambda: c.op("create_actor", V("class"), uid=A, address=SUB1),
            "has_actor": lambda: c.op("has_actor", r),
            "destroy_actor": lambda: c.op("destroy_actor", r),
            "kill_actor": lambda: c.op("kill_actor", r),
            "actor_ref": lambda: c.op("actor_ref", r),
            "send": lambda: c.op("send", r, Seq("tuple", [0, "m"])),
            "tell": lambda: c.op("send", r, Seq("tuple", [0, "m"]), wait_response=False),
            "wait_actor_pool_recovered": lambda: c.op("wait_actor_pool_recovered", SUB1, MAIN),
            "get_pool_config": lambda: c.op("get_pool_config", SUB1),
        }
        for op in ops.values():
            for _ in range(2):
                attempt(it, lambda: it.await_(op()))
        more = [it.call(it.attr(cls, n), [V("content")], []) for n in ("_gen_switch_to_copy_to_control_message", "_gen_copy_to_buffers_message", "_gen_copy_to_fileobjs_message") for _ in range(2)]
        ids = [it.fz(x.attrs.get("message_id")) for x in [d["message"] for d in c.sent] + more]
        it.claim(len(c.sent) >= 2 * len(ops), "an operation sends no request")
        it.claim(len(set(ids)) == len(ids), "two requests have the same id")
        it.claim(set(ids) <= {it.fz(x) for x in drawn}, "a request has an id that was not drawn for it")
    Sc(ctx, "request", f).run("ids of requests", go)


def _reference(ctx, name, table, get):
    cls = ctx.cls("core", name)
    f = ctx.method(cls, "create")

    def go(it):
        it.stubs["weakref.WeakValueDictionary"] = lambda it, a, k: Dct()
        for n in ("BufferRef", "FileObjectRef"):
            it.clsattrs[(ctx.cls("core", n).qual, {"BufferRef": "_ref_to_buffers", "FileObjectRef": "_ref_to_fileobjs"}[n])] = Dct()
        things = [Stub(f"thing {i}") for i in range(4)]
        names = [("h:1", b"a"), ("h:1", b"b"), ("h:2", b"a"), ("h:2", b"b")]
        refs = [it.call(it.attr(cls, "create"), [t, a, u], []) for t, (a, u) in zip(things, names)]
        look = lambda r: attempt(it, lambda: it.call(it.attr(cls, get), [r], []))  # noqa: E731
        for i, r in enumerate(refs):
            it.claim(it.attr(r, "address") == names[i][0] and it.attr(r, "uid") == names[i][1], "a reference names another thing than it was created for")
            st, v = look(r)
            it.claim(st == "ok" and v is things[i], "a reference leads to another thing than it was created for")
            # as it arrives elsewhere
            copy = Obj(cls, {})
            it.call(it.attr(copy, "__setstate__"), [it.call(it.attr(r, "__getstate__"), [], [])], [])
            st, v = look(copy)
            it.claim(st == "ok" and v is things[i], "a reference that was sent leads to another thing")
            it.claim(it.call(it.attr(r, "__hash__"), [], []) == it.call(it.attr(copy, "__hash__"), [], []), "equal references have different hashes")
            for j, o in enumerate(refs):
                it.claim(it.truth(it.call(it.attr(copy, "__eq__"), [o], [])) == (i == j), "references of different things are equal, or equal ones are not")
        other = ctx.cls("core", "FileObjectRef" if name == "BufferRef" else "BufferRef")
        o = it.call(it.attr(other, "create"), [Stub("other thing"), "h:1", b"a"], [])
        it.claim(not it.truth(it.call(it.attr(refs[0], "__eq__"), [o], [])) and not it.truth(it.call(it.attr(refs[0], "__eq__"), [b"a"], [])), "a reference equals something of another kind")
        st, v = look(refs[0])
        it.claim(st == "ok" and v is things[0], "a reference leads to another thing than it was created for")
        st, v = look(it.call(cls, ["h:3", b"a"], []))
        it.claim(st == "raise", "a reference of nothing leads to something")
    Sc(ctx, "reference", f).run(f"what a {name} leads to", go)

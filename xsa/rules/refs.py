"""C21: references are values; by abstract interpretation of both kinds of reference and of what makes them, over every
combination of kind, address, id, route and of actors that are there, gone, or replaced."""
from .records import *


class World:
    """The pools and actors of this process; actors may go away and come again."""

    def __init__(self, it, core, registered=True):
        self.it, self.core = it, core
        self.dead, self.watch = [], []
        for n in ("register_local_pool", "core._get_local_actor", "core.create_local_actor_ref"):
            it.stubs.pop(n, None)
        it.stubs["weakref.ref"] = self.ref
        self.actors = Dct()
        self.pool = Stub("pool", {"_actors": self.actors})
        if registered:
            it.call(core["register_local_pool"], [MAIN, self.pool], [])

    def ref(self, it, a, k):
        o = a[0]
        cb = a[1] if len(a) > 1 else None
        self.watch.append((o, cb))
        return Native(lambda it, x, y: None if any(d is o for d in self.dead) else o, "weakref")

    def put(self, uid):
        a = Obj(self.core["_BaseActor"], {"_address": MAIN, "_uid": uid, "_lock": Stub("lock"), "method": T("method", uid, len(self.watch))})
        self.it.setitem(self.actors, uid, a)
        return a

    def drop(self, uid, o):
        self.actors.items[:] = [x for x in self.actors.items if x[1] is not o] if hasattr(self.actors, "items") and isinstance(self.actors.items, list) else self.actors.items
        self.it.call(self.it.attr(self.actors, "pop"), [uid, None], [])
        self.dead.append(o)
        for x, cb in list(self.watch):
            if x is o and cb is not None:
                self.it.call(cb, [T("dead reference")], [])


def refs(ctx: Ctx):
    core = ctx.prog.module("core").defs
    R, L = core["ActorRef"], core["LocalActorRef"]
    same = lambda it, x, y: it.truth(it.call(it.attr(x, "__eq__"), [y], []))
    hsh = lambda it, x: it.call(it.attr(x, "__hash__"), [], [])
    P = lambda: Seq("list", [SUB2])

    def mk(it, w, n, kinds=("remote", "remote with proxies", "local")):
        kind = outcome(it, n, *kinds)
        if kind == "local":
            uid = outcome(it, f"{n} id", A, B)
            a = w.put(uid)
            return it.call(L, [a], []), MAIN, uid, None, a
        addr = outcome(it, f"{n} address", MAIN, SUB1)
        uid = outcome(it, f"{n} id", A, B)
        px = P() if kind == "remote with proxies" else None
        return it.call(R, [addr, uid], [("proxy_addresses", px)]), addr, uid, px, None

    def equality(it):
        w = World(it, core)
        x, xa, xu, _, _ = mk(it, w, "left")
        y, ya, yu, _, _ = mk(it, w, "right")
        eq = (xa, xu) == (ya, yu)
        it.claim(same(it, x, y) is eq and same(it, y, x) is eq, "references are equal although they name different actors, or differ although they name the same")
        it.claim(not eq or freeze(hsh(it, x)) == freeze(hsh(it, y)), "equal references hash differently")
        for o in (xu, xa, None, Seq("tuple", [xa, xu])):
            v = it.call(it.attr(x, "__eq__"), [o], [])
            it.claim(v is NotImplemented or not it.truth(v), "a reference equals something that is not a reference")
        it.claim(x.attrs["address"] == xa and x.attrs["uid"] == xu, "a reference names another actor")
    Sc(ctx, "equality", ctx.method(R, "__eq__")).run("two references", equality)

    def text(it):
        World(it, core)
        x, y = it.call(R, [MAIN, "a"], []), it.call(R, [MAIN, b"a"], [])
        it.claim(same(it, x, y) and freeze(hsh(it, x)) == freeze(hsh(it, y)), "the same id as text and as bytes gives different references")
    Sc(ctx, "equality", ctx.method(R, "__init__")).run("ids as text", text)

    def remake(it):
        w = World(it, core)
        x, xa, xu, px, a = mk(it, w, "reference")
        how = outcome(it, "by the time it is copied the actor", "is as it was", "is gone") if a is not None else None
        if how == "is gone":
            w.drop(xu, a)
        st, v = attempt(it, lambda: it.call(it.attr(x, "__reduce__"), [], []))
        it.claim(st == "ok", "a reference cannot be copied")
        if st != "ok":
            return
        fn, args = list(it.iterate(v))
        far = outcome(it, "it is loaded", "here", "elsewhere")
        here = a
        if far == "elsewhere":
            it.call(it.attr(w.actors, "clear"), [], [])
            w.pool.attrs["_actors"] = Dct()
        elif a is None and xa == MAIN and outcome(it, "actor of this process", True, False):
            here = w.put(xu)
        st, z = attempt(it, lambda: it.call(fn, list(it.iterate(args)), []))
        it.claim(st == "ok" and isinstance(z, Obj) and z.cls in (R, L), "a reference that is loaded is not a reference")
        if st != "ok" or not isinstance(z, Obj):
            return
        it.claim(same(it, x, z) and same(it, z, x) and freeze(hsh(it, x)) == freeze(hsh(it, z)), "a copied reference differs from the one it copies")
        if z.cls is R:
            it.claim(it.fz(z.attrs["proxy_addresses"]) == it.fz(px), "a copied reference loses its route")
            it.claim(far == "elsewhere" or how == "is gone" or here is None, "a reference to an actor of this process is not loaded as one")
            m = it.attr(z, "method")
            it.claim(isinstance(m, Obj) and m.attrs.get("ref") is z and m.attrs.get("method_name") == "method", "a method of a copied reference does not call the actor's")
        else:
            it.claim(here is not None and far == "here" and how != "is gone", "a reference to an actor of another process is loaded as a local one")
    Sc(ctx, "copy", ctx.method(R, "__reduce__")).run("copying and loading", remake)

    def special(it):
        w = World(it, core)
        x, xa, xu, px, a = mk(it, w, "reference")
        if a is not None and outcome(it, "the actor", "is there", "is gone") == "is gone":
            w.drop(xu, a)
        for n in ("__deepcopy__", "__copy__", "__getstate__extra__"):
            it.claim(it.builtin("hasattr", [x, n], []) is False if hasattr(it, "builtin") else attempt(it, lambda: it.attr(x, n))[0] == "raise", "a reference pretends to have a special method")
            st, v = attempt(it, lambda: it.attr(x, n))
            it.claim(st == "raise" and err_is(it, v, "AttributeError"), "looking for a special method of a reference fails, it cannot be copied")
    Sc(ctx, "copy", ctx.method(L, "__getattr__")).run("special methods", special)

    def again(it):
        w = World(it, core)
        a = w.put(A)
        x = it.call(L, [a], [])
        m = it.attr(x, "method")
        it.claim(isinstance(m, Obj) and m.cls is core["LocalActorRefMethod"], "a method of a local reference does not call the actor's")
        get = lambda: attempt(it, lambda: list(it.iterate(it.call(it.attr(m2, "_get_referent"), [], []))))
        m2 = m
        it.claim(get()[0] == "ok" and get()[1][0] is a, "a method of a local reference calls another actor")
        st, v = attempt(it, lambda: it.attr(x, "missing"))
        it.claim(st == "raise" and err_is(it, v, "AttributeError"), "a local reference has methods the actor does not have")
        w.drop(A, a)
        st, v = attempt(it, lambda: it.attr(x, "method"))
        it.claim(st == "raise" and err_is(it, v, "ActorNotExist"), "a reference to an actor that is gone still gives methods")
        st, v = get()
        it.claim(st == "raise" and err_is(it, v, "ActorNotExist"), "a method of an actor that is gone can still be called")
        b = w.put(A)
        st, v = get()
        it.claim(st == "ok" and v[0] is b, "a reference does not find the actor that was created anew")
        st, m3 = attempt(it, lambda: it.attr(x, "method"))
        it.claim(st == "ok", "a reference does not find the actor that was created anew")
    Sc(ctx, "local", ctx.method(L, "__getattr__")).run("an actor that goes and comes again", again)

    def made(it):
        w = World(it, core)
        f = ctx.prog.module("_utils").defs["create_actor_ref"]
        x, xa, xu, px, a = mk(it, w, "reference")
        form = outcome(it, "given", "a reference", "a reference and an address", "address and id", "by name", "address, id and proxies", "bytes and id", "nothing")
        px2 = P()
        args, kw, want = {
            "a reference": ([x], [], (xa, xu, px)),
            "a reference and an address": ([x], [("address", SUB2)], (SUB2, xu, px)),
            "address and id": ([xa, xu], [], (xa, xu, None)),
            "bytes and id": ([b"host:9", xu], [], ("host:9", xu, None)),
            "by name": ([], [("address", xa), ("uid", xu)], (xa, xu, None)),
            "address, id and proxies": ([xa, xu, px2], [], (xa, xu, px2)),
            "nothing": ([], [("address", xa)], None)}[form]
        it.stubs["_utils.to_str"] = lambda it, a, k: a[0].decode() if isinstance(a[0], bytes) else a[0]
        st, z = attempt(it, lambda: it.call(f, args, kw))
        if want is None:
            it.claim(st == "raise", "a reference is made without an id")
            return
        it.claim(st == "ok" and isinstance(z, Obj) and (z.attrs["address"], z.attrs["uid"]) == want[:2], "a reference that is made names another actor")
        it.claim(st == "ok" and it.fz(z.attrs["proxy_addresses"]) == it.fz(want[2]), "a reference that is made loses its route")
    Sc(ctx, "making", ctx.prog.module("_utils").defs["create_actor_ref"]).run("every form of argument", made)

    def lookup(it):
        w = World(it, core)
        if outcome(it, "pool", "is there", "is gone") == "is gone":
            gone = True
            w.drop(A, w.pool)
        else:
            gone = False
        there = outcome(it, "actor", True, False)
        a = w.put(A) if there else None
        addr = outcome(it, "address", MAIN, SUB1)
        st, z = attempt(it, lambda: it.call(core["create_local_actor_ref"], [addr, A], []))
        want = there and not gone and addr == MAIN
        it.claim(st == "ok" and (z is None) == (not want), "an actor of this process is not found, or one is found that is not there")
        st, z = attempt(it, lambda: it.call(core["create_actor_ref"], [addr, A, P()], []))
        it.claim(st == "ok" and isinstance(z, Obj) and (z.cls is L) == want and (z.attrs["address"], z.attrs["uid"]) == (addr, A), "a reference that is made names another actor")
    Sc(ctx, "making", core["create_actor_ref"]).run("looking for actors of this process", lookup)

"""C22: type dispatch; by abstract interpretation of the dispatcher on every history of up to three changes, each followed by
lookups, over a hierarchy with multiple inheritance, against the definition of the nearest class with a handler."""
import itertools

from ..shapes import Bound
from .records import *


class Types:
    """object <- A <- B <- D, A <- C <- D: the resolution order of D is D, B, C, A, object"""

    def __init__(self, it):
        self.it = it
        self.t = {}
        for n, mro in (("object", ()), ("A", ("object",)), ("B", ("A", "object")), ("C", ("A", "object")), ("D", ("B", "C", "A", "object")), ("X", ("object",))):
            s = self.t[n] = Stub(n, {"__name__": n}, kind="type")
            s.mro = (n,) + mro
            s.attrs["__mro__"] = Seq("tuple", [self.t[x] for x in s.mro])
        self.imports = []
        self.named = {}
        it.mods[(it.prog.module("_utils").name, "NamedType")] = self.nt = Native(self.name, "NamedType")
        it.stubs["type"] = self.type
        it.stubs["importlib.import_module"] = self.load
        it.stubs["warnings.catch_warnings"] = lambda it, a, k: Stub("cm", methods={"__enter__": lambda it, a, k: None, "__exit__": lambda it, a, k: None})

    def name(self, it, a, k):
        d = dict(zip(("name", "type_"), a))
        d.update(dict(k))
        key = (d["name"], d["type_"].label)
        if key not in self.named:
            self.named[key] = Stub(str(key), d, kind="named")
        return self.named[key]

    def type(self, it, a, k):
        if isinstance(a[0], Stub) and a[0].kind == "named":
            return self.nt
        return it.typeof(a[0])

    def load(self, it, a, k):
        self.imports.append(a[0])
        if a[0] != "mod":
            it.raise_("ModuleNotFoundError", a[0])
        return Stub("module", {n: s for n, s in self.t.items()})


_made = {}


def handler(*k):
    return _made.setdefault(k, Stub("handler" + "/".join(map(str, k))))


class Oracle:
    def __init__(self):
        self.h = {}

    def get(self, ty, name=None):
        for c in ty.mro:
            for key in ((name, c), (None, c)) if name else ((None, c),):
                if key in self.h:
                    return self.h[key]
        return None


def dispatch(ctx: Ctx):
    um = ctx.prog.module("_utils")
    cls = um.defs["TypeDispatcher"]
    f = ctx.method(cls, "get_handler")

    def named(it, name, t):
        return it.call(it.glob(um, "NamedType"), [name, t], []) if name else t

    def look(it, ty, d, o, names):
        for n, name in names:
            st, v = attempt(it, lambda: it.call(it.attr(d, "get_handler"), [named(it, name, ty.t[n])], []))
            want = o.get(ty.t[n], name)
            if want is None:
                it.claim(st == "raise" and err_is(it, v, "KeyError"), "a type without handler is not an error")
            else:
                it.claim(st == "ok" and v is want, "the handler found is not that of the nearest class that has one")

    def history(it, start, kinds, steps, names):
        ty = Types(it)
        d, o = it.call(cls, [], []), Oracle()
        for i, (n, name) in enumerate(start):
            it.call(it.attr(d, "register"), [named(it, name, ty.t[n]), handler(n, name)], [])
            o.h[(name, n)] = handler(n, name)
        look(it, ty, d, o, names)
        for i in range(steps):
            what = outcome(it, f"change {i}", *kinds)
            op, n, name = what
            h = handler(n, name, i)
            m = it.attr(d, "register" if op != "unregister" else op)
            if op == "register":
                it.call(m, [named(it, name, ty.t[n]), h], [])
                o.h[(name, n)] = h
            elif op == "register many":
                it.call(m, [Seq("tuple", [ty.t[x] for x in n]), h], [])
                for x in n:
                    o.h[(None, x)] = h
            elif op == "unregister many":
                it.call(it.attr(d, "unregister"), [Seq("tuple", [ty.t[x] for x in n])], [])
                for x in n:
                    o.h.pop((None, x), None)
            elif op == "register lazily":
                it.call(m, ["mod." + n, h], [])
                o.h[(None, n)] = h
            elif op == "unregister lazily":
                it.call(it.attr(d, "register"), ["gone.X", h], [])
                it.call(it.attr(d, "unregister"), ["gone.X"], [])
            else:
                it.call(m, [named(it, name, ty.t[n])], [])
                o.h.pop((name, n), None)
            look(it, ty, d, o, names)
    Sc(ctx, "dispatch", f).run("registering and unregistering", lambda it: history(
        it, [("A", None)], [("register", "A", None), ("register", "B", None), ("register", "C", None), ("register", "object", None), ("unregister", "A", None), ("unregister", "B", None)],
        2, [("B", None), ("D", None), ("X", None), ("D", None)]))
    Sc(ctx, "dispatch", f).run("named handlers", lambda it: history(
        it, [("A", None), ("B", "n")], [("register", "C", "n"), ("register", "D", None), ("unregister", "B", "n"), ("unregister", "A", None), ("register", "A", "n")],
        2, [("D", "n"), ("D", None), ("C", "n"), ("A", "m")]))
    Sc(ctx, "dispatch", f).run("lazily registered handlers", lambda it: history(
        it, [("A", None)], [("register lazily", "B", None), ("register lazily", "C", None), ("unregister lazily", "X", None), ("unregister", "A", None), ("register many", ("C", "X"), None), ("unregister many", ("A", "C"), None)],
        2, [("D", None), ("C", None), ("X", None)]))

    def call(it):
        ty = Types(it)
        d = it.call(cls, [], [])
        got = []
        h = Native(lambda it, a, k: (got.append((a, k)), T("answer"))[1], "handler")
        it.call(it.attr(d, "register"), [ty.t["A"], h], [])
        o = Stub("object", kind="B")
        it.stubs["type"] = lambda it, a, k: ty.t["B"] if a[0] is o else NotImplemented
        st, v = attempt(it, lambda: it.call(Bound(ctx.method(cls, "__call__"), d, cls), [o, "x"], [("y", "z")]))
        it.claim(st == "ok" and freeze(v) == T("answer"), "dispatching a call does not give what the handler gives")
        it.claim(len(got) == 1 and got[0][0][0] is o and list(got[0][0][1:]) == ["x"] and dict(got[0][1]) == {"y": "z"}, "dispatching a call does not pass the arguments to the handler")
    Sc(ctx, "dispatch", ctx.method(cls, "__call__")).run("calling", call)

    def failing(it):
        """a module that fails to load leaves the dispatcher as it was"""
        ty = Types(it)
        d = it.call(cls, [], [])
        it.call(it.attr(d, "register"), [ty.t["A"], handler()], [])
        it.call(it.attr(d, "register"), ["missing.Y", handler("lazy")], [])
        st, v = attempt(it, lambda: it.call(it.attr(d, "get_handler"), [ty.t["A"]], []))
        it.claim(st == "ok" and v is handler(), "a type with a handler is not found because another one cannot be loaded")
    Sc(ctx, "dispatch", f).run("a handler whose module is missing", failing)

    _serializers(ctx)


def _serializers(ctx):
    m = ctx.prog.module("serialization.core")
    cls = m.defs["ListSerializer"]
    other = m.defs["TupleSerializer"]
    f = ctx.method(cls, "unregister")

    def go(it):
        ty = Types(it)
        um = ctx.prog.module("_utils")
        disp = it.call(um.defs["TypeDispatcher"], [], [])
        table = Dct()
        it.mods[(m.name, "_serial_dispatcher")] = disp
        it.mods[(m.name, "_deserializers")] = table
        reg = {}
        for c in (cls, other):
            it.call(it.attr(c, "register"), [ty.t["X" if c is cls else "A"]], [])
        reg = {(None, "X"): cls, (None, "A"): other}
        sid = {c: it.attr(c, "serializer_id") for c in (cls, other)}
        it.claim(all(isinstance(x, int) or isinstance(x, T) for x in sid.values()) and it.fz(sid[cls]) != it.fz(sid[other]), "two serializers share an id")
        for i in range(2):
            op, n, name = outcome(it, f"change {i}", ("register", "B", None), ("register", "B", "n"), ("unregister", "X", None), ("unregister", "B", None), ("unregister", "B", "n"))
            st, v = attempt(it, lambda: it.call(it.attr(cls, op), [ty.t[n]], [("name", name)] if name else []))
            it.claim(st == "ok", "registering or unregistering a serializer fails")
            if op == "register":
                reg[(name, n)] = cls
            else:
                reg.pop((name, n), None)
            o = Oracle()
            o.h = {k: c for k, c in reg.items()}
            for x, y in (("A", None), ("B", None), ("B", "n"), ("X", "n"), ("D", "n")):
                st, v = attempt(it, lambda: it.call(it.attr(disp, "get_handler"), [it.call(it.glob(um, "NamedType"), [y, ty.t[x]], []) if y else ty.t[x]], []))
                want = o.get(ty.t[x], y)
                it.claim(st == "raise" and want is None or st == "ok" and isinstance(v, Obj) and v.cls is want, "the serializer found is not that of the nearest class that has one")
            for c in (cls, other):
                used = c in reg.values()
                d = dget(table, sid[c])
                have = isinstance(d, Obj) and d.cls is c
                it.claim(have or not used, "unregistering a serializer for one type makes what it wrote for other types unreadable")
                it.claim(used or d is None, "a serializer that is registered for no type is still used for reading")
    Sc(ctx, "serializers", f).run("registering and unregistering", go)

"""C05: every message type survives serial -> deserial_members unchanged."""
from .common import *
from ..shapes import Obj, Seq, Dct, T, explore, freeze, sym

MSG = "backends.message"


def _fields(ctx, cls):
    """Constructor parameters of a message class."""
    m = ctx.method(cls, "__init__")
    return m.params[1:]


def _make(it, ctx, cls, prefix, nested=None):
    """Instance with every constructor argument symbolic."""
    ps = _fields(ctx, cls)
    kw = []
    for p in ps:
        v = sym(prefix + p)
        if nested is not None and p == "raw_message":
            v = nested
        elif p == "actor_ref":
            # the field is declared as ActorRef; its uid is bytes
            v = Obj(ctx.cls("core", "ActorRef"), {a: sym(f"{prefix}{p}.{a}") for a in ("address", "uid", "proxy_addresses")})
        kw.append((p, v))
    m = it.call(cls, [], kw)
    m.sent = dict(kw)
    return m


def _uid_is_bytes(it, f, args, kw):
    if f == ("builtin", "isinstance") and len(args) == 2 and isinstance(args[0], T) and args[0].op == "sym" and args[0].a[0].endswith(".uid"):
        if args[1] == ("builtin", "str"):
            return False
        if args[1] == ("builtin", "bytes"):
            return True
    return NotImplemented


def _same(ctx, it, want, got):
    """Problem text when value `got` is not the value sent (`want`)."""
    if isinstance(want, Obj):
        if not isinstance(got, Obj) or got.cls is not want.cls:
            return f"is {got!r} instead of a {want.cls.name}"
        for k, v in want.attrs.items():
            if k not in got.attrs:
                return f"{k} is lost"
            r = _same(ctx, it, v, got.attrs[k])
            if r:
                return f"{k} {r}"
        return None
    w, g = freeze(want), freeze(got)
    if w != g:
        return f"is {g!r} instead of {w!r}"
    return None


def wire(ctx: Ctx):
    mod = ctx.prog.module(MSG)
    ser = ctx.cls(MSG, "MessageSerializer")
    ctx.modules.add(mod.rel)
    classes = message_classes(ctx)
    ctx.need(classes, "message classes", 10)
    sm, dm = ctx.method(ser, "serial"), ctx.method(ser, "deserial")
    paths = [0]
    for cls in classes:
        has_nested = "raw_message" in _fields(ctx, cls)
        for inner in (classes if has_nested else [None]):
            name = cls.name if inner is None else f"{cls.name}({inner.name})"
            if inner is not None and "raw_message" in _fields(ctx, inner):
                continue_inner = [c for c in classes if c.name == "SendMessage"]
            else:
                continue_inner = [None]
            for inner2 in continue_inner:
                _roundtrip(ctx, cls, inner, inner2, ser, name, paths)
    ctx.anchors["abstract paths"] = paths[0]
    _ctor(ctx, classes)
    _types(ctx, mod, classes)
    _registered(ctx, mod, ser)
    _error_id(ctx, classes, ser)
    _table(ctx, mod, classes)


def _roundtrip(ctx, cls, inner, inner2, ser, name, paths):
    st = {}

    def scenario(it):
        st.clear()
        nest = None
        if inner is not None:
            n2 = _make(it, ctx, inner2, "inner2.") if inner2 is not None else None
            nest = _make(it, ctx, inner, "inner.", n2)
        msg = _make(it, ctx, cls, "sent.", nest)
        st["want"] = {k: v for k, v in msg.attrs.items()}
        st["msg"] = msg
        s = Obj(ser)
        # the protocol check of the writer is not part of the layout
        r = it.call(it.attr(s, "serial"), [msg, Dct()], [])
        if not (isinstance(r, Seq) and r.plain and len(r.parts) == 3):
            st["bad"] = "the serializer does not return (header, sub objects, final)"
            return None
        head, subs, final = r.parts
        if not isinstance(head, Seq) or not isinstance(subs, Seq):
            st["bad"] = "header or sub objects have no known shape"
            return None
        if final is not False:
            st["bad"] = "sub objects of a message are declared raw buffers"
            return None
        got = it.call(it.attr(s, "deserial"), [Seq("tuple", head.parts), Dct(), Seq("list", subs.parts)], [])
        return got
    where = ctx.method(cls, "serial").where
    n = 0
    for it, (kind, val) in explore(ctx.prog, scenario, _uid_is_bytes):
        n += 1
        paths[0] += 1
        if kind == "stuck":
            ctx.undecided("message-roundtrip", name, val)
            continue
        if kind == "raise":
            if val.value == T("AssertionError"):
                continue
            ctx.bad("message-roundtrip", name, where, f"encoding or decoding fails: {val.value!r} {' '.join(map(str, val.args[1:]))} {val.where}")
            continue
        if st.get("bad"):
            ctx.bad("message-roundtrip", name, where, st["bad"])
            continue
        if not isinstance(val, Obj):
            ctx.bad("message-roundtrip", name, where, f"decoding yields {val!r}")
            continue
        if not ctx.check(val.cls is cls, "message-type", name, where, f"a {cls.name} is decoded as {val.cls.name}"):
            continue
        for f, v in st["want"].items():
            p = _same(ctx, it, v, val.attrs.get(f)) if f in val.attrs else "is not restored"
            ctx.check(p is None, "field-roundtrip", f"{name}.{f}", ctx.method(cls, "deserial_members").where, f"the field {p} after decoding")
    if n == 0:
        raise AnalysisError(f"{name}: no path")


def _ctor(ctx, classes):
    """every constructor argument is stored in the field of the same name"""
    for cls in classes:
        def scenario(it):
            return _make(it, ctx, cls, "")
        for it, (kind, val) in explore(ctx.prog, scenario, _uid_is_bytes):
            if kind == "stuck":
                ctx.undecided("constructor-stores", cls.name, val)
                continue
            f = ctx.method(cls, "__init__")
            if kind == "raise":
                ctx.bad("constructor-stores", cls.name, f.where, f"constructing fails: {val.value!r}")
                continue
            for p in _fields(ctx, cls):
                ctx.check(freeze(val.attrs.get(p)) == freeze(val.sent[p]), "constructor-stores", f"{cls.name}.{p}", f.where,
                          f"the argument {p} is stored as {val.attrs.get(p)!r}")


def _types(ctx, mod, classes):
    for en in ("MessageType", "ControlMessageType"):
        c = ctx.cls(MSG, en)
        vals = {}
        for k, v in c.class_vars.items():
            if isinstance(v, ast.Constant):
                vals.setdefault(v.value, []).append(k)
        ctx.need(vals, en, 2)
        for v, ks in vals.items():
            ctx.check(len(ks) == 1, "distinct-on-wire", f"{en}.{ks[0]}", f"{mod.rel}:{c.node.lineno}", f"{', '.join(ks)} share the value {v}")
    seen = {}
    for cls in classes:
        t = message_type_of(ctx, cls)
        ctx.check(t is not None and t not in seen, "own-message-type", cls.name, f"{mod.rel}:{cls.node.lineno}",
                  f"message type {t} is also that of {seen.get(t)}" if t in seen else "the message class has no type")
        seen[t] = cls.name


def _table(ctx, mod, classes):
    """every member of MessageType decodes to a class of this type"""
    en = ctx.cls(MSG, "MessageType")
    have = {message_type_of(ctx, c) for c in classes}
    for k in en.class_vars:
        if isinstance(en.class_vars[k], ast.Constant):
            ctx.check(k in have, "type-has-class", k, mod.rel, "no message class has this type")


def _registered(ctx, mod, ser):
    base = ctx.cls(MSG, "_MessageBase")
    ok = False
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "register" and n.args:
            f, a = ctx.prog.resolve_expr(mod, n.func.value), ctx.prog.resolve_expr(mod, n.args[0])
            if f is ser and a is base:
                ok = True
            elif f is ser:
                ok = ok or False
    if not ok:
        # registered class by class
        reg = {ctx.prog.resolve_expr(mod, n.args[0]).name for n in ast.walk(mod.tree)
               if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "register" and n.args and isinstance(ctx.prog.resolve_expr(mod, n.args[0]), ClassInfo)}
        ok = {c.name for c in message_classes(ctx)} <= reg
        if not ok:
            ok = any(isinstance(n, ast.For) and any(isinstance(x, ast.Call) and getattr(x.func, "attr", "") == "register" for x in ast.walk(n)) for n in mod.tree.body)
    ctx.check(ok, "serializer-registered", "MessageSerializer", mod.rel, "messages are not encoded by the message serializer")


def _error_id(ctx, classes, ser):
    """a reply that cannot be decoded is reported under the id of the message"""
    f = ctx.method(ser, "on_deserial_error")
    for cls in classes:
        if "raw_message" in _fields(ctx, cls):
            continue

        def scenario(it):
            msg = _make(it, ctx, cls, "sent.")
            s = Obj(ser)
            r = it.call(it.attr(s, "serial"), [msg, Dct()], [])
            return it.call(it.attr(s, "on_deserial_error"), [r.parts[0], Dct(), Seq("list", []), 0, sym("exc")], [])
        for it, (kind, val) in explore(ctx.prog, scenario, _uid_is_bytes):
            if kind == "stuck":
                ctx.undecided("undecodable-keeps-id", cls.name, val)
                continue
            if kind == "raise":
                continue
            ok = isinstance(val, Obj) and freeze(val.attrs.get("message_id")) == sym("sent.message_id")
            ctx.check(ok, "undecodable-keeps-id", cls.name, f.where, f"the failure to decode a {cls.name} is reported as {val!r}")

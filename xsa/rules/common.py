"""Shared anchors of the xoscar code base."""
from ..core import *  # noqa: F401,F403

POOL = "backends.pool"
IPOOL = "backends.indigen.pool"


def main_pool(ctx):
    return ctx.cls(IPOOL, "MainActorPool")


def sub_pool(ctx):
    return ctx.cls(IPOOL, "SubActorPool")


def pools(ctx):
    return [main_pool(ctx), sub_pool(ctx)]


def enum_members(ctx, mod, name):
    c = ctx.cls(mod, name)
    return {k: v for k, v in c.class_vars.items()}


def message_classes(ctx):
    m = ctx.prog.module("backends.message")
    base = m.defs.get("_MessageBase")
    if base is None:
        raise AnalysisError("anchor vanished: _MessageBase")
    return [c for c in m.classes if base in ctx.prog.mro(c) and c is not base]


def message_type_of(ctx, cls):
    """Name of MessageType member returned by the class' message_type property."""
    for c in ctx.prog.mro(cls):
        v = c.class_vars.get("message_type")
        if isinstance(v, ast.Attribute):
            return v.attr
    f = ctx.method(cls, "message_type", required=False)
    if f is None or f.cls.name == "_MessageBase":
        return None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute):
            return n.value.attr
    return None

"""Abstract interpreter over value shapes.

Evaluates a function's syntax tree on abstract values: constants, sequences and
dicts of known shape (possibly with unknown spliced segments), instances of
package classes, and opaque terms for everything else.  Branches whose test is
not a constant split the abstract state; the choice is remembered per test term,
so that a writer and a reader that test the same thing take matching branches.
No code of the package runs.
"""

import ast
import builtins
import operator

from .model import ClassInfo, Func, Module, imports_of


class T:
    """Opaque term."""
    __slots__ = ("op", "a", "_h")

    def __init__(self, op, *a):
        self.op = op
        self.a = a
        self._h = hash((op, a))

    def __eq__(self, o):
        return isinstance(o, T) and self._h == o._h and self.op == o.op and self.a == o.a

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.op == "sym":
            return self.a[0]
        if self.op == "attr":
            return f"{self.a[0]}.{self.a[1]}"
        if self.op == "item":
            return f"{self.a[0]}[{self.a[1]}]"
        if self.op == "call":
            return f"{self.a[0]}({', '.join(map(repr, self.a[1]))}{''.join(f', {k}={v!r}' for k, v in self.a[2])})"
        return f"{self.op}({', '.join(map(repr, self.a))})"


def sym(name):
    return T("sym", name)


class Seq:
    """tuple/list; a part is a value or Splice(term)."""

    def __init__(self, kind, parts):
        self.kind = kind
        self.parts = list(parts)

    @property
    def plain(self):
        return not any(isinstance(p, Splice) for p in self.parts)

    def __repr__(self):
        return f"{self.kind}{self.parts}"


class Splice:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"*{self.t}"


class Dct:
    def __init__(self, items=(), base=None):
        self.items = dict(items)
        self.base = base

    def __repr__(self):
        return f"dict{self.items}" + (f"+{self.base}" if self.base else "")


class Obj:
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs or {}

    def __repr__(self):
        return f"{self.cls.name}{self.attrs}"


class Clo:
    def __init__(self, func, env):
        self.func = func
        self.env = env


class Part:
    """functools.partial"""

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, list(args), list(kw)


class Bound:
    def __init__(self, func, self_, cls):
        self.func = func
        self.self = self_
        self.cls = cls


class Lin:
    """Symbolic length: constant plus lengths of terms."""

    def __init__(self, c, ts=()):
        self.c = c
        self.ts = tuple(sorted(ts, key=repr))

    def add(self, o, sign=1):
        if isinstance(o, bool) or not isinstance(o, (int, Lin)):
            return None
        o = o if isinstance(o, Lin) else Lin(o)
        if sign == 1:
            return Lin(self.c + o.c, self.ts + o.ts).norm()
        ts = list(self.ts)
        for t in o.ts:
            if t not in ts:
                return None
            ts.remove(t)
        return Lin(self.c - o.c, ts).norm()

    def norm(self):
        return self.c if not self.ts else self

    def __eq__(self, o):
        return isinstance(o, Lin) and o.c == self.c and o.ts == self.ts

    def __hash__(self):
        return hash((self.c, self.ts))

    def __repr__(self):
        return "+".join([str(self.c)] + [f"len({t})" for t in self.ts])


class Raised(Exception):
    def __init__(self, value, where=""):
        self.value = value
        self.where = where


class Stuck(Exception):
    """The interpreter met something it does not model."""


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class _More(Exception):
    pass


def freeze(v, depth=0):
    """Hashable canonical form of a value."""
    if depth > 12:
        return T("deep")
    if isinstance(v, T) or v is None or isinstance(v, (int, str, bytes, float, complex, Lin)):
        return v
    if isinstance(v, Seq):
        if v.kind == "buf" and len(v.parts) == 1:
            p = v.parts[0]
            return freeze(p.t if isinstance(p, Splice) else p, depth + 1)
        return T(v.kind, *[T("splice", freeze(p.t, depth + 1)) if isinstance(p, Splice) else freeze(p, depth + 1) for p in v.parts])
    if isinstance(v, Dct):
        return T("dict", *sorted(((getattr(k, "k", k), freeze(x, depth + 1)) for k, x in v.items.items()), key=repr), *([freeze(v.base, depth + 1)] if v.base is not None else []))
    if isinstance(v, Obj):
        return T("obj", v.cls.qual, *sorted(((k, freeze(x, depth + 1)) for k, x in v.attrs.items()), key=repr))
    if isinstance(v, ClassInfo):
        return T("cls", v.qual)
    if isinstance(v, Func):
        return T("fn", v.qual)
    if isinstance(v, Module):
        return T("mod", v.name)
    if isinstance(v, Bound):
        return T("attr", freeze(v.self, depth + 1), v.func.name)
    if isinstance(v, Part):
        return T("partial", freeze(v.func, depth + 1), *[freeze(a, depth + 1) for a in v.args])
    if isinstance(v, tuple) and v and v[0] == "meth":
        return T("attr", freeze(v[1], depth + 1), v[2])
    if isinstance(v, Clo):
        return T("clo", v.func.qual, id(v))
    if isinstance(v, tuple) and v and v[0] == "ext":
        return T("ext", v[1])
    if isinstance(v, tuple) and v and v[0] == "builtin":
        return T("ext", v[1])
    if v is Ellipsis:
        return T("ellipsis")
    if isinstance(v, _Slice):
        return T("slice", freeze(v.a, depth + 1), freeze(v.b, depth + 1), freeze(v.c, depth + 1))
    if hasattr(v, "frozen"):
        return v.frozen()
    raise Stuck(f"freeze {type(v)}")


_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
        ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
        ast.Pow: operator.pow, ast.Div: operator.truediv}
_CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
_PRIM = (int, str, bytes, float, type(None))


class _Slice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Interp:
    """One run under a list of branch decisions."""

    def __init__(self, prog, decisions=(), rewrites=None, opaque=(), limit=20000):
        self.prog = prog
        self.plan = list(decisions)
        self.taken = []          # [(key, choice, n)]
        self.known = {}
        self.rewrites = rewrites
        self.attr_hook = getattr(rewrites, "attr", None)
        self.opaque = set(opaque)
        self.steps = 0
        self.limit = limit
        self.depth = 0
        self.mods = {}
        self.exact_try = False   # handlers run only for exceptions the scenario raises
        self.log = []            # calls to opaque things, in order
        self.generic = []        # bases of the unknown sequences being iterated

    # -- decisions
    def choose(self, key, n=2):
        if key in self.known:
            return self.known[key]
        i = len(self.taken)
        c = self.plan[i] if i < len(self.plan) else 0
        self.taken.append((key, c, n))
        self.known[key] = c
        return c

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Stuck("too many steps")

    # -- functions
    def call_func(self, f, args, kw, cls=None, env=None):
        self.tick()
        if self.depth > 30:
            raise Stuck("recursion")
        a = f.node.args
        loc = {}
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        args = list(args)
        if any(isinstance(x, Splice) for x in args):
            if a.vararg and not names[len([x for x in args if not isinstance(x, Splice)]):] or a.vararg and args and isinstance(args[-1], Splice):
                pass
            else:
                raise Stuck(f"spread call of {f.name}")
        for i, nm in enumerate(names):
            if i < len(args):
                loc[nm] = args[i]
        rest = args[len(names):]
        if a.vararg:
            loc[a.vararg.arg] = Seq("tuple", rest)
        elif rest:
            raise Raised(T("TypeError", f.name), "too many arguments")
        extra = {}
        kwnames = names + [x.arg for x in a.kwonlyargs]
        base = None
        for k, v in kw:
            if k is None:
                if isinstance(v, Dct) and v.base is None:
                    for k2, v2 in v.items.items():
                        (loc if k2 in kwnames else extra)[k2] = v2
                else:
                    base = v
            elif k in kwnames:
                if k in loc:
                    raise Raised(T("TypeError", f.name, k), "duplicate argument")
                loc[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            loc[a.kwarg.arg] = Dct(extra, base)
        elif extra:
            raise Raised(T("TypeError", f.name, *extra), "unexpected keyword argument")
        for nm in kwnames:
            if nm not in loc:
                d = f.param_default(nm)
                if d is None:
                    if base is not None:
                        loc[nm] = T("item", freeze(base), nm)
                        continue
                    raise Raised(T("TypeError", f.name, nm), "missing argument")
                loc[nm] = self.ev(d, Env(f, {}, cls, env))
        e = Env(f, loc, cls, env if env is not None else getattr(f, "made_in", None))
        if f.is_lambda:
            return self.ev(f.node.body, e)
        if f.is_generator:
            raise Stuck("generator")
        self.depth += 1
        try:
            self.block(f.node.body, e)
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def construct(self, cls, args, kw):
        if self.prog.is_subclass(cls, "Enum") or any(b.split(".")[-1] in ("Enum", "IntEnum") for b in self.prog.class_ext_bases(cls)):
            return T("call", T("cls", cls.qual), tuple(freeze(a) for a in args), ())
        o = Obj(cls)
        did = False
        for k in reversed(self.prog.mro(cls)):  # Cython runs every __cinit__, base first
            m = k.methods.get("__cinit__")
            if m is not None:
                did = True
                self.call_func(m, [o] + (list(args) if len(m.params) > 1 or m.node.args.vararg else []), kw if len(m.params) > 1 else [], k)
        for mn in ("__init__",):
            m = self.prog.method(cls, mn, required=False)
            if m is not None:
                did = True
                self.call_func(m, [o] + list(args), kw, cls)
        if not did:
            names = self.fields(cls)
            for i, x in enumerate(args):
                if i < len(names):
                    o.attrs[names[i]] = x
                else:
                    o.attrs[f"arg{i}"] = x
            for k, v in kw:
                if k is not None:
                    o.attrs[k] = v
        return o

    def fields(self, cls):
        out = []
        for c in reversed(self.prog.mro(cls)):
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id not in out:
                    out.append(s.target.id)
        return out

    def call(self, f, args, kw, site=None):
        self.tick()
        if self.rewrites is not None:
            r = self.rewrites(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(f, Bound):
            if f.func.name in self.opaque:
                return self.opaque_call(T("attr", freeze(f.self), f.func.name), args, kw)
            if f.func.is_static:
                return self.call_func(f.func, args, kw, f.cls)
            return self.call_func(f.func, [f.self] + list(args), kw, f.cls)
        if isinstance(f, Clo):
            return self.call_func(f.func, args, kw, None, f.env)
        if isinstance(f, Part):
            return self.call(f.func, f.args + list(args), f.kw + list(kw), site)
        if f == ("ext", "functools.partial") and args:
            return Part(args[0], args[1:], kw)
        if isinstance(f, Func):
            if f.name in self.opaque:
                return self.opaque_call(T("fn", f.qual), args, kw)
            return self.call_func(f, args, kw, f.cls)
        if isinstance(f, ClassInfo):
            if f.name in self.opaque:
                return self.opaque_call(T("cls", f.qual), args, kw)
            return self.construct(f, args, kw)
        if isinstance(f, tuple) and f[0] == "builtin":
            r = self.builtin(f[1], args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(f, tuple) and f[0] == "meth":
            r = self.seqmeth(f[1], f[2], args, kw)
            if r is not NotImplemented:
                return r
            return self.opaque_call(T("attr", freeze(f[1]), f[2]), args, kw)
        return self.opaque_call(freeze(f), args, kw)

    def opaque_call(self, f, args, kw):
        t = T("call", f, tuple(T("splice", freeze(x.t)) if isinstance(x, Splice) else freeze(x) for x in args), tuple((k, freeze(v)) for k, v in kw))
        self.log.append(t)
        return t

    # -- builtins over shapes
    def builtin(self, n, args, kw):
        a = args
        if n == "len" and len(a) == 1:
            return self.length(a[0])
        if n in ("list", "tuple"):
            if not a:
                return Seq(n, [])
            if isinstance(a[0], Seq):
                return Seq(n, a[0].parts)
            if isinstance(a[0], T):
                if a[0].op in ("list", "tuple", "seqof"):
                    if a[0].op == "seqof":
                        return T("seqof", n, a[0].a[1])
                return T("seqof", n, a[0])
        if n == "dict":
            d = Dct()
            if a:
                if isinstance(a[0], Dct):
                    d.items.update(a[0].items)
                    d.base = a[0].base
                elif isinstance(a[0], Seq) and a[0].plain and all(isinstance(p, Seq) and p.plain and len(p.parts) == 2 for p in a[0].parts):
                    for p in a[0].parts:
                        self.setitem(d, p.parts[0], p.parts[1])
                else:
                    d.base = a[0]
            for k, v in kw:
                if k is None:
                    if isinstance(v, Dct):
                        d.items.update(v.items)
                    else:
                        d.base = v
                else:
                    d.items[k] = v
            return d
        if n == "range" and all(isinstance(x, int) for x in a):
            return Seq("list", list(range(*a)))
        if n == "enumerate" and len(a) == 1 and isinstance(a[0], T):
            return T("enumerate", a[0])
        if n == "enumerate" and len(a) == 1 and isinstance(a[0], Seq) and not a[0].plain:
            return T("enumerate", freeze(a[0]))
        if n == "enumerate" and isinstance(a[0], Seq) and a[0].plain:
            st = a[1] if len(a) > 1 else 0
            return Seq("list", [Seq("tuple", [i + st, p]) for i, p in enumerate(a[0].parts)])
        if n == "zip" and all(isinstance(x, Seq) and x.plain for x in a):
            return Seq("list", [Seq("tuple", p) for p in zip(*[x.parts for x in a])])
        if n == "zip" and all(isinstance(x, (Seq, T)) for x in a):
            return T("zip", *[freeze(x) for x in a])
        if n == "reversed" and isinstance(a[0], Seq) and a[0].plain:
            return Seq("list", a[0].parts[::-1])
        if n == "getattr" and isinstance(a[1], str):
            try:
                return self.attr(a[0], a[1])
            except Raised:
                if len(a) > 2:
                    return a[2]
                raise
        if n == "setattr" and isinstance(a[1], str):
            self.setattr(a[0], a[1], a[2])
            return None
        if n == "hasattr" and isinstance(a[0], Obj) and isinstance(a[1], str):
            try:
                self.attr(a[0], a[1])
                return True
            except Raised:
                return False
        if n == "isinstance":
            cs = a[1].parts if isinstance(a[1], Seq) else [a[1]]
            if isinstance(a[0], Obj) and all(isinstance(c, ClassInfo) for c in cs):
                return any(c in self.prog.mro(a[0].cls) for c in cs)
            if isinstance(a[0], (Seq, Dct)) or isinstance(a[0], _PRIM):
                nm = {Seq: getattr(a[0], "kind", ""), Dct: "dict"}.get(type(a[0]), type(a[0]).__name__)
                if all(isinstance(c, tuple) and c[0] == "builtin" for c in cs):
                    return any(c[1] == nm or c[1] == "object" or (nm == "bool" and c[1] == "int") for c in cs)
        if n == "issubclass" and isinstance(a[0], ClassInfo) and isinstance(a[1], ClassInfo):
            return a[1] in self.prog.mro(a[0])
        if n == "type" and len(a) == 1:
            if isinstance(a[0], Obj):
                return a[0].cls
            if isinstance(a[0], (Seq, Dct)):
                return ("builtin", a[0].kind if isinstance(a[0], Seq) else "dict")
            if isinstance(a[0], _PRIM):
                return ("builtin", type(a[0]).__name__)
            return T("type", freeze(a[0]))
        if n == "sum" and isinstance(a[0], Seq) and a[0].plain and all(isinstance(p, (int, Lin)) for p in a[0].parts):
            r = 0
            for p in a[0].parts:
                r = self.binop(ast.Add(), r, p)
            return r
        if n == "bool" and len(a) == 1 and not kw:
            return self.truth(a[0])
        if n in ("bytes", "int", "float", "str", "bool", "max", "min", "abs") and a and all(isinstance(x, _PRIM) for x in a) and not kw:
            try:
                return getattr(builtins, n)(*a)
            except ValueError:
                if n in ("int", "float"):
                    self.value_error(n)
                return NotImplemented
            except Exception:
                return NotImplemented
        return NotImplemented

    def length(self, v):
        if isinstance(v, Seq):
            c = sum(not isinstance(p, Splice) for p in v.parts)
            return Lin(c, [freeze(p.t) for p in v.parts if isinstance(p, Splice)]).norm()
        if isinstance(v, Dct) and v.base is None:
            return len(v.items)
        if isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, T) and v.op == "seqof":
            return Lin(0, [v.a[1]])
        if isinstance(v, T) and v.op == "map" and not v.a[2]:
            return Lin(0, [v.a[0]])
        return Lin(0, [freeze(v)])

    def seqmeth(self, o, m, args, kw):
        if m == "__setitem__" and len(args) == 2:
            self.setitem(o, args[0], args[1])
            return None
        if m == "__getitem__" and len(args) == 1:
            return self.index(o, args[0])
        if isinstance(o, Seq):
            if m == "append":
                self.add_parts(o, [args[0]])
                return None
            if m == "extend":
                self.add_parts(o, self.parts_of(args[0]))
                return None
            if m == "insert" and isinstance(args[0], int) and o.plain:
                o.parts.insert(args[0], args[1])
                return None
            if m == "copy":
                return Seq(o.kind, o.parts)
            if m == "pop" and o.plain and all(isinstance(x, int) for x in args):
                if not o.parts:
                    raise Raised(T("IndexError"))
                return o.parts.pop(*args)
            if m == "clear":
                o.parts.clear()
                return None
            if m == "index" and o.plain:
                for i, p in enumerate(o.parts):
                    if freeze(p) == freeze(args[0]):
                        return i
        if isinstance(o, Dct):
            if m == "get" and isinstance(args[0], _PRIM):
                if args[0] in o.items:
                    return o.items[args[0]]
                if o.base is None:
                    return args[1] if len(args) > 1 else None
                return T("call", T("attr", freeze(o.base), "get"), tuple(freeze(a) for a in args), ())
            if m == "pop" and isinstance(args[0], _PRIM):
                if args[0] in o.items:
                    return o.items.pop(args[0])
                if o.base is None:
                    if len(args) > 1:
                        return args[1]
                    raise Raised(T("KeyError", args[0]))
            if m == "update":
                for x in args:
                    if isinstance(x, Dct):
                        o.items.update(x.items)
                        if x.base is not None:
                            o.base = x.base if o.base is None else T("merge", freeze(o.base), freeze(x.base))
                    elif isinstance(x, Seq) and x.plain and all(isinstance(p, Seq) and p.plain and len(p.parts) == 2 and isinstance(p.parts[0], _PRIM) for p in x.parts):
                        for p in x.parts:
                            o.items[p.parts[0]] = p.parts[1]
                    else:
                        o.base = freeze(x) if o.base is None else T("merge", freeze(o.base), freeze(x))
                for k, v in kw:
                    if k is not None:
                        o.items[k] = v
                return None
            if m == "setdefault" and isinstance(args[0], _PRIM) and o.base is None:
                return o.items.setdefault(args[0], args[1] if len(args) > 1 else None)
            if m == "copy":
                return Dct(o.items, o.base)
            if o.base is None and m == "items":
                return Seq("list", [Seq("tuple", [k, v]) for k, v in o.items.items()])
            if o.base is None and m == "keys":
                return Seq("list", list(o.items))
            if o.base is None and m == "values":
                return Seq("list", list(o.items.values()))
        if isinstance(o, (str, bytes)) and all(isinstance(x, _PRIM) for x in args) and not kw:
            try:
                r = getattr(o, m)(*args)
                if isinstance(r, _PRIM):
                    return r
                if isinstance(r, (list, tuple)):
                    return Seq(type(r).__name__, list(r))
            except Exception:
                pass
        return NotImplemented

    def add_parts(self, o, ps):
        if self.generic and getattr(o, "level", 0) < len(self.generic):
            if len(ps) != 1 or isinstance(ps[0], Splice) or len(self.generic) - getattr(o, "level", 0) > 1:
                t = T("flat", self.generic[-1], freeze(Seq("list", ps)))
                o.parts.append(Splice(t))
                return
            o.parts.append(self.splice(self.generic[-1], ps[0]))
            return
        o.parts.extend(ps)

    def parts_of(self, v):
        if isinstance(v, Seq):
            return list(v.parts)
        if isinstance(v, T) and v.op == "seqof":
            return [Splice(v.a[1])]
        return [Splice(freeze(v))]

    # -- attributes
    def attr(self, o, n):
        self.tick()
        if self.attr_hook is not None:
            r = self.attr_hook(self, o, n)
            if r is not NotImplemented:
                return r
        if isinstance(o, Obj):
            if n in o.attrs:
                return o.attrs[n]
            if n == "__class__":
                return o.cls
            m = self.prog.method(o.cls, n, required=False)
            if m is not None:
                if m.is_property:
                    return self.call_func(m, [o], [], o.cls)
                if m.is_classmethod:
                    return Bound(m, o.cls, o.cls)
                return Bound(m, o, o.cls)
            r = self.classvar(o.cls, n)
            if r is not NotImplemented:
                return r
            if n in self.fields(o.cls):
                return None
            if n == "__dict__":
                return T("attr", freeze(o), n)
            raise Raised(T("AttributeError", o.cls.name, n))
        if isinstance(o, ClassInfo):
            if n in ("__name__", "__qualname__"):
                return o.name
            m = self.prog.method(o, n, required=False)
            if m is not None:
                return Bound(m, o, o) if m.is_classmethod else m
            ext = [b.split(".")[-1] for b in self.prog.class_ext_bases(o)]
            if any(b in ("Enum", "IntEnum", "IntFlag", "Flag") for b in ext) and any(n in c.class_vars for c in self.prog.mro(o)):
                return T("enum", o.qual, n)
            for c in self.prog.mro(o):
                if n in c.nested:
                    return c.nested[n]
            r = self.classvar(o, n)
            if r is not NotImplemented:
                return r
            return T("attr", freeze(o), n)
        if isinstance(o, Module):
            return self.glob(o, n)
        if isinstance(o, T):
            if o.op == "enum" and n in ("value", "name"):
                if n == "name":
                    return o.a[1]
                c = self.class_by_qual(o.a[0])
                r = self.classvar(c, o.a[1])
                return r
            if o.op == "ext":
                return ("ext", f"{o.a[0]}.{n}")
            return T("attr", o, n)
        if isinstance(o, tuple) and o[0] == "ext":
            return ("ext", f"{o[1]}.{n}")
        if isinstance(o, (Seq, Dct, str, bytes)):
            return ("meth", o, n)
        if isinstance(o, Bound) and n in ("__func__", "__self__"):
            return o.func if n == "__func__" else o.self
        return T("attr", freeze(o), n)

    def class_by_qual(self, q):
        for c in self.prog.all_classes():
            if c.qual == q:
                return c
        raise Stuck(q)

    def classvar(self, cls, n):
        for c in self.prog.mro(cls):
            if n in c.class_vars:
                v = c.class_vars[n]
                if v is None:
                    return None
                return self.ev(v, Env(None, {}, c, None, c.module))
        return NotImplemented

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            o.attrs[n] = v
        else:
            self.log.append(T("setattr", freeze(o), n, freeze(v)))

    # -- names
    def name(self, n, env):
        e = env
        while e is not None:
            if n in e.loc:
                return e.loc[n]
            e = e.up
        r = self.glob(env.module, n)
        return r

    def glob(self, m, n):
        key = (m.name, n)
        if key in self.mods:
            return self.mods[key]
        r = self.prog.resolve_in(m, n)
        if r is None:
            sub = self.prog.modules.get(f"{m.name}.{n}")
            if sub is not None:
                return sub
            if hasattr(builtins, n):
                return ("builtin", n)
            return T("glob", f"{m.name}.{n}")
        r = self.norm(r)
        self.mods[key] = r
        return r

    def norm(self, r):
        if isinstance(r, tuple) and r[0] == "var":
            m, n = r[1], r[2]
            vals = m.vars.get(n, [])
            if len(vals) == 1 and vals[0] is not None:
                key = (m.name, n)
                if key in self.mods:
                    return self.mods[key]
                self.mods[key] = T("glob", f"{m.name}.{n}")  # recursion guard
                try:
                    v = self.ev(vals[0], Env(None, {}, None, None, m))
                except (Raised, Stuck):
                    v = T("glob", f"{m.name}.{n}")
                if isinstance(v, T) and v.op in ("call",):
                    v = T("glob", f"{m.name}.{n}")
                self.mods[key] = v
                return v
            return T("glob", f"{m.name}.{n}")
        if isinstance(r, tuple) and r[0] == "ext":
            last = r[1].split(".")
            if last[0] == "builtins" and hasattr(builtins, last[-1]):
                return ("builtin", last[-1])
            return r
        return r

    # -- expressions
    def ev(self, e, env):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Stuck(type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_Attribute(self, e, env):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
            return self.super_attr(env, e.attr, e.value, env)
        return self.attr(self.ev(e.value, env), e.attr)

    def super_attr(self, env, n, call, env2):
        e = env
        while e is not None and (e.func is None or e.func.cls is None):
            e = e.up
        if e is None:
            raise Stuck("super outside class")
        defc = e.func.cls
        selfv = e.loc.get(e.func.params[0]) if e.func.params else None
        cls = selfv.cls if isinstance(selfv, Obj) else selfv if isinstance(selfv, ClassInfo) else (e.cls or defc)
        mro = self.prog.mro(cls)
        if defc in mro:
            mro = mro[mro.index(defc) + 1:]
        for c in mro:
            if n in c.methods:
                return Bound(c.methods[n], selfv, cls)
            if n in c.class_vars:
                return self.ev(c.class_vars[n], Env(None, {}, c, None, c.module))
        return T("super", n) if n not in ("__init__", "__cinit__", "__new__") else ("ext", "object.__new__" if n == "__new__" else "object.__init__")

    def e_Tuple(self, e, env):
        return Seq("tuple", self.elts(e.elts, env))

    def e_List(self, e, env):
        r = Seq("list", self.elts(e.elts, env))
        r.level = len(self.generic)
        return r

    def e_Set(self, e, env):
        return T("set", *[freeze(x) for x in self.elts(e.elts, env)])

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.parts_of(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = Dct()
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if isinstance(x, Dct):
                    d.items.update(x.items)
                else:
                    d.base = x
                continue
            kk = self.ev(k, env)
            d.items[kk if isinstance(kk, _PRIM) else freeze(kk)] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(v.value)
            else:
                x = self.ev(v.value, env)
                ps.append(str(x) if isinstance(x, (str, int)) and v.conversion == -1 and v.format_spec is None else freeze(x))
        if all(isinstance(p, str) for p in ps):
            return "".join(ps)
        return T("fstr", *ps)

    def e_FormattedValue(self, e, env):
        return T("fmt", freeze(self.ev(e.value, env)))

    def e_Lambda(self, e, env):
        f = Func(env.module, None, e)
        return Clo(f, env)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != is_and:
                return v
        return v

    def e_UnaryOp(self, e, env):
        if isinstance(e.op, ast.Not):
            return not self.truth(self.ev(e.operand, env))
        v = self.ev(e.operand, env)
        if isinstance(v, (int, float)):
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)](v)
        return T(type(e.op).__name__, freeze(v))

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, Seq) or isinstance(b, Seq):
                if isinstance(a, (Seq, T)) and isinstance(b, (Seq, T)):
                    k = a.kind if isinstance(a, Seq) else b.kind
                    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind != b.kind:
                        raise Raised(T("TypeError", "concat"))
                    return Seq(k, self.parts_of(a) + self.parts_of(b))
            if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and not (isinstance(a, int) and isinstance(b, int)):
                r = (a if isinstance(a, Lin) else Lin(a)).add(b)
                if r is not None:
                    return r
        if isinstance(op, ast.Sub) and isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and not (isinstance(a, int) and isinstance(b, int)):
            r = (a if isinstance(a, Lin) else Lin(a)).add(b, -1)
            if r is not None:
                return r
        if isinstance(op, ast.Mult) and isinstance(a, Seq) and isinstance(b, int):
            return Seq(a.kind, a.parts * b)
        if isinstance(a, _PRIM) and isinstance(b, _PRIM) and a is not None and b is not None:
            try:
                return _BIN[type(op)](a, b)
            except Exception as x:
                raise Raised(T(type(x).__name__))
        x, y = freeze(a), freeze(b)
        return T(type(op).__name__, x, y)

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            res = self.compare(op, l, r)
            if len(e.ops) > 1 and not self.truth(res):
                return False
            l = r
        return res

    def compare(self, op, a, b):
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            if isinstance(a, _PRIM) and isinstance(b, _PRIM):
                same = a is b if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None or isinstance(a, bool) or isinstance(b, bool)) else a == b
                return same != neg
            if isinstance(a, (Seq, Dct, Obj, ClassInfo, Func, Bound, Clo)) and (b is None or isinstance(b, _PRIM)) or \
                    isinstance(b, (Seq, Dct, Obj, ClassInfo, Func, Bound, Clo)) and (a is None or isinstance(a, _PRIM)):
                return neg
            if isinstance(a, (ClassInfo, Module)) and isinstance(b, (ClassInfo, Module)):
                return (a is b) != neg
            if a is None and _known_obj(b) or b is None and _known_obj(a):
                return neg
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(a, (Obj, Seq, Dct)) and isinstance(b, (Obj, Seq, Dct)):
                return (a is b) != neg
            if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "enum":
                return (a == b) != neg
            if isinstance(a, T) and (b is None) and _is_exc(a) or isinstance(b, T) and a is None and _is_exc(b):
                return neg
            if isinstance(a, T) and a.op == "enum" and b is None or isinstance(b, T) and b.op == "enum" and a is None:
                return neg
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "builtin":
                return (a[1] == b[1]) != neg
            if isinstance(a, Seq) and isinstance(b, Seq) and a.plain and b.plain and all(isinstance(x, _PRIM) for x in a.parts + b.parts):
                return (a.kind == b.kind and a.parts == b.parts) != neg
            if isinstance(a, tuple) and isinstance(b, tuple) and (str(a[1]).startswith("user.") or str(b[1]).startswith("user.")):
                return (a == b) != neg
            if isinstance(a, tuple) and isinstance(b, ClassInfo) or isinstance(b, tuple) and isinstance(a, ClassInfo):
                return neg
            x, y = freeze(a), freeze(b)
            if x == y:
                return not neg
            k = T("eq", *sorted((x, y), key=repr))
            return T("Not", k) if neg else k
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Dct) and b.base is None and isinstance(a, _PRIM):
                return (a in b.items) != neg
            if isinstance(b, Seq) and b.plain and all(isinstance(p, _PRIM) for p in b.parts) and isinstance(a, _PRIM):
                return (a in b.parts) != neg
            if isinstance(b, Dct) and b.base is None and isinstance(a, Obj) and not b.items:
                return neg
            if isinstance(a, (tuple, ClassInfo)) and (isinstance(b, T) and b.op in ("set", "tuple", "list") or isinstance(b, Seq) and b.plain):
                els = b.a if isinstance(b, T) else [freeze(p) for p in b.parts]
                if all(isinstance(x, T) and x.op in ("ext", "cls", "type") or isinstance(x, _PRIM) for x in els):
                    return (freeze(a) in els) != neg
            k = T("in", freeze(a), freeze(b))
            return T("Not", k) if neg else k
        if isinstance(a, (int, float, str, bytes)) and isinstance(b, (int, float, str, bytes)):
            try:
                return _CMP[type(op)](a, b)
            except TypeError:
                raise Raised(T("TypeError"))
        x, y = freeze(a), freeze(b)
        if isinstance(op, ast.Lt):
            return T("lt", x, y)
        if isinstance(op, ast.Gt):
            return T("lt", y, x)
        if isinstance(op, ast.GtE):
            return T("Not", T("lt", x, y))
        return T("Not", T("lt", y, x))

    def truth(self, v):
        if isinstance(v, _PRIM):
            return bool(v)
        if isinstance(v, Seq):
            if any(not isinstance(p, Splice) for p in v.parts):
                return True
            if not v.parts:
                return False
        if isinstance(v, Dct):
            if v.items:
                return True
            if v.base is None:
                return False
        if isinstance(v, Lin):
            if v.c > 0:
                return True
        if isinstance(v, (ClassInfo, Func, Module, Bound, Clo)) or _known_obj(v):
            return True
        if isinstance(v, Obj):
            if self.prog.method(v.cls, "__bool__", required=False) is None and self.prog.method(v.cls, "__len__", required=False) is None:
                return True
        neg = False
        k = freeze(v)
        while isinstance(k, T) and k.op == "Not":
            neg = not neg
            k = k.a[0]
        if isinstance(k, T) and k.op == "eq" and None in k.a and isinstance([x for x in k.a if x is not None][0] if any(x is not None for x in k.a) else None, T):
            # remember the None-ness separately from truthiness
            pass
        return (self.choose(("if", k)) == 0) != neg

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        return self.index(o, i)

    def e_Slice(self, e, env):
        return _Slice(*[self.ev(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def index(self, o, i):
        if isinstance(i, _Slice):
            if i.c is None and isinstance(o, Seq):
                r = self.slice(o, i.a, i.b)
                if r is not None:
                    return r
            if isinstance(o, (bytes, str)) and all(isinstance(x, (int, type(None))) for x in (i.a, i.b, i.c)):
                return o[i.a:i.b:i.c]
            if isinstance(o, T) and o.op in ("call", "attr", "sym", "item", "slice_of"):
                return T("slice_of", o, freeze(i))
            return T("slice_of", freeze(o), freeze(i))
        if isinstance(o, Seq) and isinstance(i, int) and not isinstance(i, bool):
            if i >= 0:
                pre = o.parts[:i + 1]
                if not any(isinstance(p, Splice) for p in pre):
                    if len(pre) <= i:
                        raise Raised(T("IndexError"))
                    return pre[i]
            else:
                suf = o.parts[i:] if len(o.parts) >= -i else None
                if suf is None and o.plain:
                    raise Raised(T("IndexError"))
                if suf is not None and not any(isinstance(p, Splice) for p in suf):
                    return suf[0]
            if len(o.parts) == 1:
                return T("item", freeze(o.parts[0].t), i)
        if isinstance(o, Dct):
            k = i if isinstance(i, _PRIM) else freeze(i)
            if k in o.items:
                return o.items[k]
            if o.base is None and isinstance(i, _PRIM) and all(isinstance(x, _PRIM) for x in o.items):
                raise Raised(T("KeyError", i))
            if o.base is not None:
                return T("item", freeze(o.base), freeze(i))
        return T("item", freeze(o), freeze(i))

    def slice(self, o, lo, hi):
        def cut(b, default):
            if b is None:
                return default
            if isinstance(b, bool) or not isinstance(b, (int, Lin)):
                # an opaque number known to be a length
                if isinstance(b, T):
                    b = Lin(0, [T("num", b)])
                else:
                    return None
            if isinstance(b, int) and b < 0:
                k = len(o.parts) + b
                if k < 0:
                    return 0 if o.plain else None
                return k if not any(isinstance(p, Splice) for p in o.parts[k:]) else None
            acc = 0
            for k in range(len(o.parts) + 1):
                if acc == b:
                    return k
                if isinstance(acc, int) and isinstance(b, int) and k == len(o.parts) and b > acc:
                    return k
                if k < len(o.parts):
                    p = o.parts[k]
                    step = Lin(0, [freeze(p.t)]) if isinstance(p, Splice) else 1
                    acc = (acc if isinstance(acc, Lin) else Lin(acc)).add(step)
            return None
        a, b = cut(lo, 0), cut(hi, len(o.parts))
        if a is None or b is None:
            return None
        return Seq(o.kind, o.parts[a:b])

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.super_value(e, env)
        f = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kw = [(k.arg, self.ev(k.value, env)) for k in e.keywords]
        if any(k is None and (v is None or isinstance(v, (bool, int, float, str, bytes))) for k, v in kw):
            raise Raised(T("TypeError", "argument after ** must be a mapping"))
        if f == ("ext", "object.__init__"):
            fn = env.func
            me = env.loc.get(fn.params[0]) if fn is not None and fn.params else None
            if isinstance(me, Obj) and not kw:
                self.base_init(me, args)
            return None
        return self.call(f, args, kw, e)

    def base_init(self, me, args):
        pass

    def e_Await(self, e, env):
        v = self.ev(e.value, env)
        return v

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def _comp(self, e, env, emit):
        def go(i, env):
            if i == len(e.generators):
                emit(env)
                return
            g = e.generators[i]
            it = self.ev(g.iter, env)
            if not (isinstance(it, Seq) and it.plain):
                raise Stuck("comprehension over unknown")
            for p in list(it.parts):
                e2 = Env(None, {}, env.cls, env, env.module)
                self.assign(g.target, p, e2)
                if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                    go(i + 1, e2)
        go(0, env)

    def _compterm(self, e, env, kind):
        out = []
        it = self.ev(e.generators[0].iter, env)
        if not (isinstance(it, Seq) and it.plain):
            if len(e.generators) > 1:
                raise Stuck("nested comprehension over unknown")
            res = []
            for base, el in self.runs(it):
                e2 = Env(None, {}, env.cls, env, env.module)
                self.assign(e.generators[0].target, el, e2)
                if base is None:
                    if all(self.truth(self.ev(c, e2)) for c in e.generators[0].ifs):
                        res.append(self.ev(e.elt, e2))
                    continue
                self.generic.append(base)
                try:
                    conds = tuple(freeze(self.ev(c, e2)) for c in e.generators[0].ifs)
                    v = freeze(self.ev(e.elt, e2))
                finally:
                    self.generic.pop()
                res.append(self.splice(base, v, conds))
            return Seq(kind, res)
        self._comp(e, env, lambda en: out.append(self.ev(e.elt, en)))
        return Seq(kind, out)

    def splice(self, base, v, conds=()):
        """Part made of v for every element of base."""
        v = freeze(v)
        if v == T("elem", base) and not conds:
            return Splice(base)
        return Splice(T("map", base, v, conds))

    def runs(self, it):
        """(base|None, element value) for every part of an iterable; base is the
        unknown sequence a generic element stands for."""
        if isinstance(it, Dct) and it.base is None:
            it = Seq("list", list(it.items))
        if isinstance(it, Seq):
            out = []
            for p in it.parts:
                if isinstance(p, Splice):
                    out.append(self.generic_elem(p.t))
                else:
                    out.append((None, p))
            return out
        t = freeze(it)
        return [self.generic_elem(t)]

    def generic_elem(self, t):
        if isinstance(t, T) and t.op == "seqof":
            return self.generic_elem(t.a[1])
        if isinstance(t, T) and t.op == "map" and not t.a[2]:
            return t.a[0], t.a[1]
        if isinstance(t, T) and t.op == "zip":
            rs = [self.generic_elem(x) for x in t.a]
            if len({b for b, _ in rs}) == 1:
                return rs[0][0], Seq("tuple", [v for _, v in rs])
            return t, Seq("tuple", [v for _, v in rs])
        if isinstance(t, T) and t.op == "enumerate":
            b, v = self.generic_elem(t.a[0])
            return b, Seq("tuple", [T("idx", b), v])
        if isinstance(t, T) and t.op in ("list", "tuple") and len(t.a) == 1 and isinstance(t.a[0], T) and t.a[0].op == "splice":
            return self.generic_elem(t.a[0].a[0])
        return t, T("elem", t)

    def e_ListComp(self, e, env):
        return self._compterm(e, env, "list")

    def e_GeneratorExp(self, e, env):
        return self._compterm(e, env, "list")

    def e_SetComp(self, e, env):
        v = self._compterm(e, env, "list")
        return T("set", freeze(v))

    def e_DictComp(self, e, env):
        it = self.ev(e.generators[0].iter, env)
        if not (isinstance(it, Seq) and it.plain):
            e2 = Env(None, {}, env.cls, env, env.module)
            el = T("elem", freeze(it))
            self.assign(e.generators[0].target, el, e2)
            return T("mapd", freeze(it), freeze(self.ev(e.key, e2)), freeze(self.ev(e.value, e2)), tuple(freeze(self.ev(c, e2)) for c in e.generators[0].ifs))
        d = Dct()

        def emit(en):
            k = self.ev(e.key, en)
            d.items[k if isinstance(k, _PRIM) else freeze(k)] = self.ev(e.value, en)
        self._comp(e, env, emit)
        return d

    # -- statements
    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Stuck(type(s).__name__)
        if env.func is not None:
            self.prog.evaluated.setdefault(env.func, set()).add(s.lineno)
        return m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        pass

    def s_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def s_Import(self, s, env):
        for n, ref in imports_of(env.module, s).items():
            env.loc[n] = self.norm(self.prog.resolve_import(*ref))

    s_ImportFrom = s_Import

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Return(self, s, env):
        raise _Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.attr(o, t.attr)
        else:
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            cur = self.index(o, i)
        v = self.ev(s.value, env)
        if isinstance(cur, Seq) and cur.kind == "list" and isinstance(s.op, ast.Add):
            self.add_parts(cur, self.parts_of(v))
            new = cur
        else:
            new = self.binop(s.op, cur, v)
        if isinstance(t, ast.Name):
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            self.setitem(o, i, new)

    def setitem(self, o, i, v):
        if isinstance(o, Dct):
            o.items[i if isinstance(i, _PRIM) else freeze(i)] = v
        elif isinstance(o, Seq) and isinstance(i, int) and o.plain:
            o.parts[i] = v
        elif isinstance(o, (Seq, T)):
            if isinstance(o, Seq):
                raise Stuck("store at unknown index")
            self.log.append(T("setitem", freeze(o), freeze(i), freeze(v)))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.up
                while e is not None and t.id not in e.loc:
                    e = e.up
            (e or env).loc[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, Seq) and v.plain and not st:
                if len(v.parts) != n:
                    raise Raised(T("ValueError", "unpack"), "wrong number of values to unpack")
                for x, p in zip(t.elts, v.parts):
                    self.assign(x, p, env)
            elif isinstance(v, Seq) and st:
                k = st[0]
                tail = n - k - 1
                if len(v.parts) < n - 1:
                    raise Raised(T("ValueError", "unpack"))
                head, last = v.parts[:k], v.parts[len(v.parts) - tail:] if tail else []
                if any(isinstance(p, Splice) for p in head + last):
                    raise Stuck("unpack")
                for x, p in zip(t.elts[:k], head):
                    self.assign(x, p, env)
                self.assign(t.elts[k].value, Seq("list", v.parts[k:len(v.parts) - tail]), env)
                for x, p in zip(t.elts[k + 1:], last):
                    self.assign(x, p, env)
            else:
                if st:
                    raise Stuck("starred unpack of unknown")
                f = freeze(v)
                for i, x in enumerate(t.elts):
                    self.assign(x, T("item", f, i), env)
        elif isinstance(t, ast.Starred):
            raise Stuck("starred")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.loc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, env), self.ev(t.slice, env)
                if isinstance(o, Dct) and isinstance(i, _PRIM):
                    o.items.pop(i, None)
                else:
                    self.log.append(T("delitem", freeze(o), freeze(i)))

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_Assert(self, s, env):
        v = self.ev(s.test, env)
        if isinstance(v, _PRIM):
            if not v:
                raise Raised(T("AssertionError"))
            return
        neg = False
        k = freeze(v)
        while isinstance(k, T) and k.op == "Not":
            neg, k = not neg, k.a[0]
        self.known.setdefault(("if", k), 1 if neg else 0)

    def s_Raise(self, s, env):
        if s.exc is None:
            e = env
            while e is not None and e.exc is None:
                e = e.up
            raise Raised(e.exc if e is not None else T("exc"))
        v = self.ev(s.exc, env)
        if isinstance(v, ClassInfo):
            v = self.construct(v, [], [])
        raise Raised(v, f"{env.module.rel}:{s.lineno}")

    def s_FunctionDef(self, s, env):
        f = Func(env.module, None, s, env.func)
        env.loc[s.name] = Clo(f, env)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, env):
        env.loc[s.name] = T("localcls", s.name)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        try:
            for base, p in self.runs(it):
                if base is not None:
                    self.generic_body(s, base, p, env)
                    continue
                self.assign(s.target, p, env)
                try:
                    self.block(s.body, env)
                except _Cont:
                    continue
        except _Brk:
            return
        self.block(s.orelse, env)

    def generic_body(self, s, base, p, env):
        self.generic.append(base)
        try:
            self.assign(s.target, p, env)
            try:
                self.block(s.body, env)
            except _Cont:
                pass
            except _Brk:
                raise Stuck("break in a loop over unknown")
        finally:
            self.generic.pop()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                v = env.loc.get(n.id)
                if not isinstance(v, (Seq, Dct, Obj)) or n in ast.walk(s.target):
                    env.loc[n.id] = T("after", base, n.id)

    s_AsyncFor = s_For

    def s_While(self, s, env):
        n = 0
        try:
            while self.truth(self.ev(s.test, env)):
                n += 1
                if n > 40:
                    raise Stuck("loop bound")
                try:
                    self.block(s.body, env)
                except _Cont:
                    continue
        except _Brk:
            return
        self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise _Brk()

    def s_Continue(self, s, env):
        raise _Cont()

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T("enter", freeze(v)), env)
        self.block(s.body, env)

    s_AsyncWith = s_With

    def s_Try(self, s, env):
        c = 0
        cands = [h for h in s.handlers]
        explicit = any(isinstance(x, ast.Raise) for b in s.body for x in ast.walk(b))
        if cands and not explicit and not self.exact_try:
            c = self.choose(("try", env.module.name, s.lineno, self.depth), len(cands) + 1)
        try:
            try:
                if c:
                    exc = T("exc", s.lineno)
                    self.handler(s.handlers[c - 1], exc, env)
                else:
                    self.block(s.body, env)
                    self.block(s.orelse, env)
            except Raised as r:
                if c:
                    raise
                for h in s.handlers:
                    if self.matches(h, r.value, env):
                        self.handler(h, r.value, env)
                        break
                else:
                    raise
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def handler(self, h, v, env):
        old = env.exc
        env.exc = v
        if h.name:
            env.loc[h.name] = v
        try:
            self.block(h.body, env)
        finally:
            env.exc = old

    def matches(self, h, v, env):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            c = self.ev(t, env)
            if isinstance(c, tuple) and c[0] in ("builtin", "ext"):
                n = c[1].split(".")[-1]
                if n in ("BaseException", "Exception"):
                    return True
                if isinstance(v, T) and (v.op == n or v.op == "call" and repr(v.a[0]).endswith(n + "')")):
                    return True
                b = getattr(builtins, n, None)
                if isinstance(v, T) and isinstance(b, type):
                    vb = getattr(builtins, v.op, None)
                    if v.op == "call" and isinstance(v.a[0], T) and v.a[0].op == "ext":
                        vb = getattr(builtins, v.a[0].a[0].split(".")[-1], None)
                    if isinstance(vb, type) and issubclass(vb, b):
                        return True
                if isinstance(v, Obj) and any(x.split(".")[-1] == n for x in self.prog.class_ext_bases(v.cls)):
                    return True
            elif isinstance(c, ClassInfo) and isinstance(v, Obj) and c in self.prog.mro(v.cls):
                return True
        return False


def _known_obj(v):
    """a builtin, or an external thing known to be a class"""
    return isinstance(v, tuple) and len(v) == 2 and (v[0] == "builtin" or v[0] == "ext" and str(v[1]).startswith("user."))


def _is_exc(t):
    c = getattr(builtins, t.op, None) if isinstance(t.op, str) else None
    return t.op == "exc" or isinstance(c, type) and issubclass(c, BaseException)


class Env:
    def __init__(self, func, loc, cls, up, module=None):
        self.func = func
        self.loc = loc
        self.cls = cls
        self.up = up
        self.module = module or (func.module if func is not None else up.module)
        self.nonlocals = set()
        self.exc = None


def explore(prog, scenario, rewrites=None, opaque=(), max_paths=256):
    """Run scenario(interp) for every combination of branch choices.
    Yields (interp, outcome) with outcome ('ok', value) | ('raise', Raised) | ('stuck', msg)."""
    todo = [[]]
    n = 0
    while todo:
        plan = todo.pop()
        n += 1
        if n > max_paths:
            yield None, ("stuck", "too many paths")
            return
        it = Interp(prog, plan, rewrites, opaque)
        try:
            r = ("ok", scenario(it))
        except Raised as x:
            r = ("raise", x)
        except Stuck as x:
            r = ("stuck", str(x))
        except (_Brk, _Cont):
            r = ("stuck", "loop control")
        for i in range(len(plan), len(it.taken)):
            key, c, k = it.taken[i]
            for alt in range(c + 1, k):
                todo.append([x[1] for x in it.taken[:i]] + [alt])
        yield it, r

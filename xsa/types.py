"""Whole-program type inference (flow-insensitive, context-insensitive): for every expression the kinds of values it
may be.  A kind is ("o", ClassInfo) an instance, ("c", ClassInfo) a class, ("f", Fn) a function, ("x", dotted) something
of another package, ("i", dotted) what calling it gives, ("m", Module), ("co", kind) an awaitable, ("C", kind) a
container of kind."""
import ast

from .model import ClassInfo, Func, Module, imports_of

CONT = {"list", "set", "dict", "tuple", "frozenset", "List", "Set", "Dict", "Tuple", "FrozenSet", "Iterable", "Iterator", "Sequence", "deque", "Deque",
        "WeakSet", "WeakKeyDictionary", "WeakValueDictionary", "defaultdict", "DefaultDict", "OrderedDict", "Mapping", "Collection", "AsyncIterator",
        "AsyncGenerator", "Generator", "MutableMapping"}
ELEMS = {"get", "pop", "popitem", "popleft", "values", "items", "keys", "copy", "setdefault", "__getitem__", "most_common"}
ROOTS = {"asyncio", "threading", "multiprocessing", "subprocess", "queue", "concurrent", "socket", "select", "selectors", "psutil", "time", "os", "signal",
         "requests", "urllib", "http", "functools", "builtins", "contextlib", "itertools", "copy", "collections", "weakref"}
INST = ROOTS - {"functools", "builtins", "contextlib", "itertools", "copy", "collections", "weakref", "os", "time", "signal"}


def _keep(k):
    if k[0] in ("x", "i", "a"):
        p = k[1].split(".")
        return p[0] in INST and len(p) <= (3 if k[0] == "x" else 4) or k[0] == "x" and p[0] in ROOTS and len(p) == 2
    return _keep(k[1]) if k[0] in ("C", "co", "C1") and isinstance(k[1], tuple) else True




class Fn:
    """A function with its scope."""

    def __init__(self, tp, func, node, module, cls, parent):
        self.tp, self.func, self.node, self.module, self.cls, self.parent = tp, func, node, module, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.vars = {}
        self.rets = set()
        self.yields = set()
        self.imports = {}
        self.nested = {}
        a = node.args
        self.posargs = [x.arg for x in a.posonlyargs + a.args]
        self.params = self.posargs + [x.arg for x in a.kwonlyargs]
        self.args = a
        self.decos = set()
        for d in getattr(node, "decorator_list", []):
            d = d.func if isinstance(d, ast.Call) else d
            self.decos.add(d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", ""))
        self.static = "staticmethod" in self.decos
        self.gen = False
        self.globals, self.nonlocals = set(), set()
        self.body = list(own(node))
        for n in self.body:
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.gen = True
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.imports.update(imports_of(module, n))

    @property
    def qual(self):
        p = f"{self.parent.qual}.{self.name}" if self.parent else (f"{self.cls.name}.{self.name}" if self.cls else self.name)
        return p

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<Fn {self.qual}>"


def own(node):
    """the nodes of a function without those of nested functions"""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


class Types:
    def __init__(self, prog, skip=lambda m: False, rounds=80):
        self.prog = prog
        self.fns = []
        self.of = {}           # id(node) -> Fn
        self.attrs = {}        # (ClassInfo, name) -> kinds
        self.globs = {}        # (module name, var) -> kinds
        self.mods = [m for m in prog.modules.values() if not skip(m)]
        for m in self.mods:
            for f in m.functions:
                for g in [f] + f.sibs:
                    self._fn(g, g.node, m, None, None)
            for c in m.classes:
                self._cls(c)
        self.by_name = {}
        for f in self.fns:
            if f.cls is not None and f.parent is None:
                self.by_name.setdefault(f.name, []).append(f)
        self.changed = True
        self.rounds = 0
        while self.changed and self.rounds < rounds:
            self.changed = False
            self.rounds += 1
            for m in self.mods:
                self._module(m)
            for f in self.fns:
                self._scan(f)

    def _cls(self, c):
        for f in list(c.methods.values()) + list(c.setters.values()):
            for g in [f] + f.sibs:
                self._fn(g, g.node, c.module, c, None)

    def _fn(self, func, node, module, cls, parent):
        if id(node) in self.of:
            return self.of[id(node)]
        f = Fn(self, func, node, module, cls, parent)
        self.of[id(node)] = f
        self.fns.append(f)
        for n in own(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                g = self._fn(None, n, module, cls, f)
                if not isinstance(n, ast.Lambda):
                    f.nested[n.name] = g
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            k = self.ann(a.annotation, f)
            f.vars[a.arg] = set(k)
        if cls is not None and parent is None and f.posargs and not f.static:
            f.vars[f.posargs[0]] = {("c", cls) if "classmethod" in f.decos or "classproperty" in f.decos or f.name in ("__new__", "__init_subclass__") else ("o", cls)}
        r = self.ann(getattr(node, "returns", None), f)
        f.rets |= {k for k in r if k[0] != "x"}
        return f

    # -- annotations
    def ann(self, a, f, depth=0):
        if a is None or depth > 6:
            return set()
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                try:
                    return self.ann(ast.parse(a.value, mode="eval").body, f, depth + 1)
                except SyntaxError:
                    return set()
            return set()
        if isinstance(a, ast.BinOp):
            return self.ann(a.left, f, depth + 1) | self.ann(a.right, f, depth + 1)
        if isinstance(a, ast.Subscript):
            b = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", "")
            sl = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if b in ("Optional", "Union"):
                return set().union(*[self.ann(x, f, depth + 1) for x in sl])
            if b in CONT:
                return {cont(k) for k in set().union(*[self.ann(x, f, depth + 1) for x in sl])}
            if b in ("Type", "type"):
                return {("c", k[1]) for k in self.ann(sl[0], f, depth + 1) if k[0] == "o"}
            if b in ("Awaitable", "Coroutine", "Future", "Task"):
                return {co(k) for k in self.ann(sl[-1], f, depth + 1)}
            return self.ann(a.value, f, depth + 1)
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self._ref(a, f)
            out = set()
            for k in r:
                if k[0] == "c":
                    out.add(("o", k[1]))
                elif k[0] == "x":
                    out.add(("i", k[1]))
                elif k[0] == "var":
                    for v in k[1].vars.get(k[2], []):
                        if v is not None:
                            out |= self.ann(v, _Scope(k[1]), depth + 1)
            return out
        return set()

    def _ref(self, e, f):
        m = f.module
        extra = f.imports
        r = self.prog.resolve_expr(m, e, extra)
        return self._kind(r)

    def _kind(self, r):
        if isinstance(r, ClassInfo):
            return {("c", r)}
        if isinstance(r, Func):
            g = self.of.get(id(r.node))
            return {("f", g)} if g else set()
        if isinstance(r, Module):
            return {("m", r)}
        if isinstance(r, tuple) and r[0] == "ext":
            return {("x", r[1])}
        if isinstance(r, tuple) and r[0] == "var":
            return {r}
        return set()

    # -- storage
    def put(self, table, key, ks):
        ks = {k for k in ks if k[0] != "var" and _keep(k)}
        if not ks:
            return
        s = table.setdefault(key, set())
        if not ks <= s:
            s |= ks
            self.changed = True

    def put_attr(self, cls, name, ks):
        self.put(self.attrs, (cls, name), ks)

    def attr_kinds(self, cls, name):
        out = set()
        fam = set(self.prog.mro(cls)) | set(self._subs(cls))
        for c in fam:
            out |= self.attrs.get((c, name), set())
        for c in self.prog.mro(cls):
            if name in c.annotations:
                out |= self.ann(c.annotations[name], _Scope(c.module))
        return out

    def _subs(self, cls):
        c = self.__dict__.setdefault("_subcache", {})
        if cls not in c:
            c[cls] = [x for x in self.prog.all_classes() if cls in self.prog.mro(x)]
        return c[cls]

    def methods(self, cls, name, down=True):
        out = []
        for c in self.prog.mro(cls):
            if name in c.methods:
                out.append(c.methods[name])
                break
        if down:
            for c in self._subs(cls):
                if name in c.methods and c.methods[name] not in out:
                    out.append(c.methods[name])
        return [self.of[id(g.node)] for f in out for g in [f] + f.sibs if id(g.node) in self.of]

    # -- evaluation
    def ev(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        return m(e, f) if m else set()

    def var(self, name, f):
        s = f
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            if name in s.nested:
                return {("f", s.nested[name])}
            if name in s.imports:
                return self._kind(self.prog.resolve_import(*s.imports[name]))
            s = s.parent
        out = set()
        for k in self._kind(self.prog.resolve_in(f.module, name)):
            if k[0] == "var":
                out |= self.globs.get((k[1].name, k[2]), set())
            else:
                out.add(k)
        if not out and name in ("open", "input", "print", "super", "type", "list", "dict", "set", "tuple", "sorted", "iter", "next", "zip", "enumerate", "reversed", "map", "filter", "getattr"):
            return {("x", "builtins." + name)}
        return out

    def e_Name(self, e, f):
        return self.var(e.id, f)

    def e_Attribute(self, e, f):
        out = set()
        for k in self.ev(e.value, f):
            out |= self.member(k, e.attr)
        return out

    def member(self, k, n):
        if k[0] == "o":
            out = set(self.attr_kinds(k[1], n))
            for g in self.methods(k[1], n):
                if g.decos & {"property", "cached_property", "classproperty"}:
                    out |= g.rets
                else:
                    out.add(("f", g))
            if not out:
                for b in self.prog.class_ext_bases(k[1]):
                    out.add(("x", f"{b}.{n}"))
            return out
        if k[0] == "c":
            out = {("f", g) for g in self.methods(k[1], n, down=True)}
            out |= self.attr_kinds(k[1], n)
            return out
        if k[0] == "m":
            out = set()
            for x in self._kind(self.prog.attr_of(k[1], n)):
                out |= self.globs.get((x[1].name, x[2]), set()) if x[0] == "var" else {x}
            return out
        if k[0] == "x":
            return {("x", f"{k[1]}.{n}")}
        if k[0] == "i":
            return {("a", f"{k[1]}.{n}")}
        if k[0] == "C" and n in ELEMS:
            return {("C1", k)}
        return set()

    def e_Call(self, e, f):
        out = set()
        fk = self.ev(e.func, f)
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, f) for a in e.args]
        kws = {k.arg: self.ev(k.value, f) for k in e.keywords}
        if isinstance(e.func, ast.Call) and isinstance(e.func.func, ast.Name) and e.func.func.id == "super":
            pass
        for k in fk:
            out |= self.apply(k, args, kws, e, f)
        if not fk and isinstance(e.func, ast.Attribute):
            for g in self.guess(e.func.attr):
                out |= self.result(g)
        return out

    def guess(self, name):
        """the methods of a name that few classes have, for receivers of unknown kind"""
        gs = self.by_name.get(name, [])
        return gs if 0 < len({g.cls for g in gs}) <= 2 and not name.startswith("__") else []

    def result(self, g):
        r = g.rets
        if g.gen:
            r = {cont(k) for k in g.yields} | r
            if g.decos & {"contextmanager", "asynccontextmanager"}:
                return {("cm", g)}
            return r
        if g.is_async:
            return {co(k) for k in r} or {("co", None)}
        return r

    def bind(self, g, args, kws, method):
        ps = g.posargs
        if method and ps:
            ps = ps[1:]
        for p, a in zip(ps, args):
            self.put(g.vars, p, a)
        for n, a in kws.items():
            if n in g.params:
                self.put(g.vars, n, a)

    def apply(self, k, args, kws, e, f):
        if k[0] == "f":
            g = k[1]
            meth = g.cls is not None and g.parent is None and not g.static
            if meth and isinstance(e.func, ast.Attribute):
                recv = self.ev(e.func.value, f)
                if any(x[0] == "c" for x in recv) and "classmethod" not in g.decos and len(args) and not any(x[0] == "o" for x in recv):
                    meth = False
            self.bind(g, args, kws, meth)
            return self.result(g)
        if k[0] == "c":
            for n in ("__init__", "__new__", "__cinit__"):
                for g in self.methods(k[1], n, down=False):
                    self.bind(g, args, kws, True)
            return {("o", k[1])}
        if k[0] == "part":
            return self.apply(k[1], [set()] * k[2] + args, kws, e, f)
        if k[0] == "C1":
            n = e.func.attr if isinstance(e.func, ast.Attribute) else ""
            inner = k[1]
            return {inner} if n in ("values", "items", "keys", "copy") else {inner[1], inner}
        if k[0] == "x":
            return self.ext(k[1], args, kws, e, f)
        if k[0] == "a":
            last = k[1].split(".")[-1]
            if last == "submit":
                return {("i", "concurrent.futures.Future")}
            if last[0].isupper():
                return {("i", k[1])}
            if last in ("__enter__", "__aenter__"):
                return {("i", k[1].rsplit(".", 1)[0])}
            return self.ext(k[1], args, kws, e, f) if last in ("create_task", "run_in_executor") else set()
        return set()

    def ext(self, n, args, kws, e, f):
        last = n.split(".")[-1]
        a0 = args[0] if args else set()
        if n == "builtins.super":
            if f.cls is None:
                s = f
                while s and s.cls is None:
                    s = s.parent
                if s is None:
                    return set()
            cls = f.cls
            return {("o", b) for b in self.prog.mro(cls)[1:2]} | {("i", b) for b in self.prog.class_ext_bases(cls)}
        if n in ("builtins.list", "builtins.set", "builtins.tuple", "builtins.sorted", "builtins.iter", "builtins.reversed", "builtins.dict", "copy.copy", "copy.deepcopy", "collections.deque", "collections.OrderedDict", "weakref.WeakSet"):
            return set(a0)
        if n in ("builtins.zip", "builtins.enumerate", "itertools.chain"):
            return set().union(*args) if args else set()
        if n == "builtins.next":
            return {k[1] for k in a0 if k[0] == "C"}
        if n in ("asyncio.create_task", "asyncio.ensure_future", "asyncio.shield", "asyncio.wait_for", "asyncio.wrap_future") or last == "create_task":
            return set(a0)
        if n in ("asyncio.to_thread",):
            out = set()
            for k in a0:
                if k[0] == "f":
                    self.bind(k[1], args[1:], kws, k[1].cls is not None and k[1].parent is None and not k[1].static)
                    out |= {co(x) for x in k[1].rets}
            return out or {("co", None)}
        if last == "run_in_executor":
            for k in args[1] if len(args) > 1 else ():
                if k[0] == "f":
                    self.bind(k[1], args[2:], {}, k[1].cls is not None and k[1].parent is None and not k[1].static)
            return {("co", None)}
        if n == "asyncio.gather":
            return {co(cont(k[1])) for a in args for k in a if k[0] == "co" and k[1]}
        if n in ("functools.partial",) and a0:
            for k in a0:
                if k[0] == "f":
                    self.bind(k[1], args[1:], kws, k[1].cls is not None and k[1].parent is None and not k[1].static)
            return {k if k[0] == "part" else ("part", k, len(args) - 1) for k in a0 if k[0] in ("f", "c", "x", "part")}
        if n == "contextlib.closing":
            return set(a0)
        return {("i", n)}

    def e_Await(self, e, f):
        return {k[1] for k in self.ev(e.value, f) if k[0] == "co" and k[1] is not None} | {k for k in self.ev(e.value, f) if k[0] in ("i",)}

    def _elems(self, ks):
        # containers of containers are not told from containers
        return {k[1] for k in ks if k[0] == "C"} | {k for k in ks if k[0] == "C"}

    def _cont(self, ks):
        return {cont(k) for k in ks}

    def e_List(self, e, f):
        return self._cont(set().union(*[self.ev(x.value, f) if isinstance(x, ast.Starred) else self.ev(x, f) for x in e.elts])) if e.elts else set()
    e_Tuple = e_Set = e_List

    def e_Dict(self, e, f):
        return self._cont(set().union(*[self.ev(x, f) for x in e.values])) if e.values else set()

    def _comp(self, e, f):
        for g in e.generators:
            self.assign(g.target, self._elems(self.ev(g.iter, f)), f)

    def e_ListComp(self, e, f):
        self._comp(e, f)
        return self._cont(self.ev(e.elt, f))
    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, f):
        self._comp(e, f)
        return self._cont(self.ev(e.value, f))

    def e_Subscript(self, e, f):
        b = self.ev(e.value, f)
        if isinstance(e.slice, ast.Slice):
            return b
        return self._elems(b)

    def e_IfExp(self, e, f):
        return self.ev(e.body, f) | self.ev(e.orelse, f)

    def e_BoolOp(self, e, f):
        return set().union(*[self.ev(x, f) for x in e.values])

    def e_BinOp(self, e, f):
        return self.ev(e.left, f) | self.ev(e.right, f)

    def e_NamedExpr(self, e, f):
        r = self.ev(e.value, f)
        self.assign(e.target, r, f)
        return r

    def e_Starred(self, e, f):
        return self.ev(e.value, f)

    def e_Lambda(self, e, f):
        g = self.of.get(id(e))
        return {("f", g)} if g else set()

    # -- statements
    def assign(self, t, ks, f):
        if isinstance(t, ast.Name):
            s = f
            if t.id in f.globals:
                self.put(self.globs, (f.module.name, t.id), ks)
                return
            if t.id in f.nonlocals:
                s = f.parent
                while s is not None and t.id not in s.vars and s.parent is not None:
                    s = s.parent
            if s is not None:
                s.vars.setdefault(t.id, set())
                self.put(s.vars, t.id, ks)
        elif isinstance(t, (ast.Tuple, ast.List)):
            es = self._elems(ks)
            for x in t.elts:
                self.assign(x, es, f)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, ks, f)
        elif isinstance(t, ast.Attribute):
            for k in self.ev(t.value, f):
                if k[0] in ("o", "c"):
                    self.put_attr(k[1], t.attr, ks)
        elif isinstance(t, ast.Subscript):
            self._fill(t.value, self._cont(ks), f)

    def _fill(self, e, ks, f):
        """ks are added to the container e"""
        if isinstance(e, ast.Name):
            self.assign(e, ks, f)
        elif isinstance(e, ast.Attribute):
            self.assign(e, ks, f)
        elif isinstance(e, ast.Subscript):
            self._fill(e.value, self._cont(ks), f)

    def _module(self, m):
        sc = self.__dict__.setdefault("_scopes", {}).setdefault(m, _Scope(m))
        for n, vs in m.vars.items():
            for v in vs:
                if v is not None:
                    self.put(self.globs, (m.name, n), self.ev(v, sc))
        for c in m.classes:
            for st in c.node.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            self.put_attr(c, t.id, self.ev(st.value, sc))
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    self.put_attr(c, st.target.id, self.ev(st.value, sc))

    def _scan(self, f):
        if isinstance(f.node, ast.Lambda):
            self.put({"r": f.rets}, "r", self.ev(f.node.body, f))
            return
        d = list(f.args.defaults)
        for a, v in zip((f.args.posonlyargs + f.args.args)[len(f.args.posonlyargs + f.args.args) - len(d):], d):
            self.put(f.vars, a.arg, self.ev(v, f.parent or _Scope(f.module)))
        for n in f.body:
            if isinstance(n, ast.Assign):
                if isinstance(n.value, (ast.Tuple, ast.List)) and all(isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts) for t in n.targets):
                    for t in n.targets:
                        for x, v in zip(t.elts, n.value.elts):
                            self.assign(x, self.ev(v, f), f)
                    continue
                ks = self.ev(n.value, f)
                for t in n.targets:
                    self.assign(t, ks, f)
            elif isinstance(n, ast.AnnAssign):
                ks = self.ann(n.annotation, f) | (self.ev(n.value, f) if n.value is not None else set())
                self.assign(n.target, ks, f)
            elif isinstance(n, ast.AugAssign):
                self.assign(n.target, self.ev(n.value, f), f)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                self.assign(n.target, self._elems(self.ev(n.iter, f)), f)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    ks = set()
                    for k in self.ev(i.context_expr, f):
                        ks |= k[1].yields if k[0] == "cm" else {k} if k[0] in ("i", "o") else set()
                    if i.optional_vars is not None:
                        self.assign(i.optional_vars, ks, f)
            elif isinstance(n, ast.Return) and n.value is not None:
                self._ret(f.rets, self.ev(n.value, f))
            elif isinstance(n, ast.Yield) and n.value is not None:
                self._ret(f.yields, self.ev(n.value, f))
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.args and n.func.attr in ("append", "add", "appendleft", "put_nowait", "insert", "extend", "setdefault", "update"):
                    ks = self.ev(n.args[-1], f)
                    self._fill(n.func.value, ks if n.func.attr in ("extend", "update") else self._cont(ks), f)
                self.ev(n, f)
                # threading.Thread(target=f, args=(x,)): the parameters of f
                kw = {k.arg: k.value for k in n.keywords}
                if "target" in kw:
                    ts = self.ev(kw["target"], f)
                    av = kw.get("args")
                    args = [self.ev(a, f) for a in av.elts] if isinstance(av, ast.Tuple) else []
                    for k in ts:
                        if k[0] == "f":
                            self.bind(k[1], args, {}, k[1].cls is not None and k[1].parent is None and not k[1].static)

    def _ret(self, s, ks):
        ks = {k for k in ks if k[0] != "var" and _keep(k)}
        if not ks <= s:
            s |= ks
            self.changed = True


class _Scope:
    parent = None
    cls = None

    def __init__(self, module):
        self.module, self.vars, self.imports, self.nested = module, {}, {}, {}
        self.globals = self.nonlocals = ()
        self.node = ast.Module(body=[], type_ignores=[])


def base(k):
    while k and k[0] in ("C", "co", "C1"):
        k = k[1]
    return k


def cont(k):
    """a container of k"""
    if k[0] in ("C", "C1"):
        return k if k[0] == "C" else k[1]
    if k[0] == "co":
        return ("C", ("co", base(k)))
    return ("C", k)


def co(k):
    """an awaitable giving k"""
    if k[0] == "co":
        return k
    b = base(k)
    return ("co", ("C", b) if k[0] in ("C", "C1") and b is not None else b)

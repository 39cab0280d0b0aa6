"""Program model: every module of /repo/python/xoscar, its classes and
functions, with import/name/attribute resolution inside the package."""

import ast

from .desugar import Desugar
import hashlib
import os

from .pyxfront import parse_pyx

PKG = "xoscar"


class AnalysisError(Exception):
    """The analysis itself cannot run (a vanished anchor, an unparsable file)."""


class Func:
    def __init__(self, module, cls, node, parent=None):
        self.module = module
        self.cls = cls
        self.node = node
        self.parent = parent
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_lambda = isinstance(node, ast.Lambda)
        self.decorators = [] if self.is_lambda else node.decorator_list
        self._gen = None
        self.sibs = []  # earlier definitions with the same name (if/else, setter...)

    @property
    def qual(self):
        if self.parent is not None:
            return f"{self.parent.qual}.<locals>.{self.name}"
        if self.cls is not None:
            return f"{self.cls.qual}.{self.name}"
        return f"{self.module.name}.{self.name}"

    @property
    def short(self):
        q = self.qual
        return q[len(self.module.name) + 1:]

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = _has_yield(self.node)
        return self._gen

    def deco_names(self):
        out = []
        for d in self.decorators:
            if isinstance(d, ast.Call):
                d = d.func
            if isinstance(d, ast.Attribute):
                out.append(d.attr)
            elif isinstance(d, ast.Name):
                out.append(d.id)
        return out

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            out.append(a.vararg.arg)
        out += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def param_default(self, name):
        a = self.node.args
        pos = a.posonlyargs + a.args
        for i, x in enumerate(pos):
            if x.arg == name:
                j = i - (len(pos) - len(a.defaults))
                return a.defaults[j] if j >= 0 else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name:
                return d
        return None

    @property
    def is_static(self):
        return "staticmethod" in self.deco_names()

    @property
    def is_classmethod(self):
        return "classmethod" in self.deco_names() or self.name == "__init_subclass__" or self.name == "__class_getitem__"

    @property
    def is_property(self):
        return bool({"property", "cached_property"} & set(self.deco_names()))

    @property
    def is_abstract(self):
        return bool({"abstractmethod", "abstractproperty"} & set(self.deco_names()))

    def __repr__(self):
        return f"<Func {self.qual}>"


def _has_yield(fn):
    body = [fn.body] if isinstance(fn, ast.Lambda) else fn.body
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        st.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, module, node, outer=None):
        self.module = module
        self.node = node
        self.name = node.name
        self.outer = outer
        self.methods = {}
        self.setters = {}
        self.class_vars = {}   # name -> value expr
        self.annotations = {}  # name -> annotation expr
        for st in _flat(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(module, self, st)
                if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in st.decorator_list):
                    self.setters[st.name] = f
                    continue
                if st.name in self.methods:
                    f.sibs = self.methods[st.name].sibs + [self.methods[st.name]]
                self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.class_vars[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annotations[st.target.id] = st.annotation
                if st.value is not None:
                    self.class_vars[st.target.id] = st.value
        self._mro = None
        self.nested = {st.name: ClassInfo(module, st, self) for st in _flat(node.body) if isinstance(st, ast.ClassDef)}

    @property
    def qual(self):
        return f"{self.outer.qual}.{self.name}" if self.outer is not None else f"{self.module.name}.{self.name}"

    @property
    def short(self):
        return self.name

    def __repr__(self):
        return f"<Class {self.qual}>"


def _flat(body):
    for st in body:
        if isinstance(st, ast.If):
            yield from _flat(st.body)
            yield from _flat(st.orelse)
        elif isinstance(st, ast.Try):
            yield from _flat(st.body)
            for h in st.handlers:
                yield from _flat(h.body)
            yield from _flat(st.orelse)
            yield from _flat(st.finalbody)
        elif isinstance(st, (ast.With,)):
            yield from _flat(st.body)
        else:
            yield st


class Module:
    def __init__(self, prog, name, path, rel, src, tree, is_pkg):
        self.prog = prog
        self.name = name
        self.path = path
        self.rel = rel
        self.src = src
        self.tree = tree
        self.is_pkg = is_pkg
        self.is_pyx = path.endswith(".pyx")
        self.defs = {}     # name -> Func | ClassInfo
        self.imports = {}  # name -> (modname, attr|None)
        self.vars = {}     # name -> list of value exprs
        self.functions = []
        self.classes = []
        self._collect()

    def _collect(self):
        for st in _flat(self.tree.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(self, None, st)
                if isinstance(self.defs.get(st.name), Func):
                    f.sibs = self.defs[st.name].sibs + [self.defs[st.name]]
                self.defs[st.name] = f
                self.functions.append(f)
            elif isinstance(st, ast.ClassDef):
                c = ClassInfo(self, st)
                self.defs[st.name] = c
                self.classes.append(c)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self._import(st, self.imports)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.vars.setdefault(t.id, []).append(st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.vars.setdefault(st.target.id, [])
                if st.value is not None:
                    self.vars[st.target.id].append(st.value)
            elif isinstance(st, ast.For):
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.vars.setdefault(n.id, []).append(None)

    def _import(self, st, table):
        for k, v in imports_of(self, st).items():
            table[k] = v


def imports_of(mod, st):
    out = {}
    if isinstance(st, ast.Import):
        for a in st.names:
            if a.asname:
                out[a.asname] = (a.name, None)
            else:
                out[a.name.split(".")[0]] = (a.name.split(".")[0], None)
    else:
        base = st.module or ""
        if st.level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (st.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        for a in st.names:
            out[a.asname or a.name] = (base, a.name)
    return out


class Program:
    def __init__(self, root="/repo/python", pkg=PKG):
        self.root = root
        self.modules = {}
        self.files = []
        top = os.path.join(root, pkg)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__", "build"))
            for f in sorted(files):
                p = os.path.join(d, f)
                if f.endswith(".py") or f.endswith(".pyx"):
                    self._load(p)
        self._lookup_cache = {}
        self.evaluated = {}  # Func -> line numbers of the statements interpreted

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        with open(path, "rb") as fh:
            raw = fh.read()
        src = raw.decode("utf-8")
        stem = rel[: -4] if rel.endswith(".pyx") else rel[:-3]
        parts = stem.split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        if name == "xoscar._version":
            return
        try:
            tree = parse_pyx(path, src) if path.endswith(".pyx") else Desugar().visit(ast.parse(src, path))
        except AnalysisError:
            raise
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {rel}: {e}")
        except Exception as e:  # Cython errors
            raise AnalysisError(f"cannot parse {rel}: {type(e).__name__}: {e}")
        self.files.append((rel, hashlib.sha256(raw).hexdigest()))
        self.modules[name] = Module(self, name, path, rel, src, tree, is_pkg)

    # -- lookup by name (anchors)
    def module(self, name):
        full = name if name.startswith(PKG) else f"{PKG}.{name}"
        m = self.modules.get(full)
        if m is None:
            raise AnalysisError(f"anchor vanished: module {full}")
        return m

    def cls(self, modname, cname):
        m = self.module(modname)
        c = m.defs.get(cname)
        if c is None and cname in m.imports:
            c = self.resolve_import(*m.imports[cname])
        if not isinstance(c, ClassInfo):
            raise AnalysisError(f"anchor vanished: class {modname}.{cname}")
        return c

    def func(self, modname, fname):
        m = self.module(modname)
        f = m.defs.get(fname)
        if f is None and fname in m.imports:
            f = self.resolve_import(*m.imports[fname])
        if not isinstance(f, Func):
            raise AnalysisError(f"anchor vanished: function {modname}.{fname}")
        return f

    def method(self, cls, name, required=True):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        if required:
            raise AnalysisError(f"anchor vanished: method {cls.qual}.{name}")
        return None

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.functions:
                yield f
                for s in f.sibs:
                    yield s
            for c in m.classes:
                for f in c.methods.values():
                    yield f
                    for s in f.sibs:
                        yield s
                for f in c.setters.values():
                    yield f

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes

    # -- resolution
    def resolve_import(self, modname, attr, depth=0):
        """-> Func | ClassInfo | Module | ('var', Module, name) | ('ext', dotted)"""
        if depth > 12:
            return ("ext", f"{modname}.{attr}")
        if attr is None:
            return self.modules.get(modname) or ("ext", modname)
        m = self.modules.get(modname)
        if m is not None:
            r = self.resolve_in(m, attr, depth + 1)
            if r is not None:
                return r
        sub = self.modules.get(f"{modname}.{attr}")
        if sub is not None:
            return sub
        return ("ext", f"{modname}.{attr}" if modname else attr)

    def resolve_in(self, m, name, depth=0):
        if name in m.defs:
            return m.defs[name]
        if name in m.vars and name not in m.imports:
            vals = m.vars[name]
            # alias:  A = B
            v = vals[-1] if vals else None
            if len(vals) == 1 and isinstance(v, ast.Name) and v.id != name and depth < 12:
                r = self.resolve_in(m, v.id, depth + 1)
                if r is not None:
                    return r
            return ("var", m, name)
        if name in m.imports:
            return self.resolve_import(*m.imports[name], depth=depth + 1)
        return None

    def resolve_expr(self, m, e, extra=None):
        """Resolve a Name/Attribute expression at module scope."""
        if isinstance(e, ast.Name):
            if extra and e.id in extra:
                return self.resolve_import(*extra[e.id])
            return self.resolve_in(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, extra)
            return self.attr_of(b, e.attr)
        return None

    def attr_of(self, b, attr):
        if isinstance(b, Module):
            r = self.resolve_in(b, attr)
            if r is not None:
                return r
            return self.modules.get(f"{b.name}.{attr}")
        if isinstance(b, ClassInfo):
            for c in self.mro(b):
                if attr in c.methods:
                    return c.methods[attr]
            return None
        if isinstance(b, tuple) and b[0] == "ext":
            return ("ext", f"{b[1]}.{attr}")
        return None

    def mro(self, cls):
        if cls._mro is not None:
            return cls._mro
        cls._mro = [cls]
        seqs = []
        bases = []
        for b in cls.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = self.resolve_expr(cls.module, b)
            if isinstance(r, ClassInfo):
                bases.append(r)
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        out = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    s.pop(0)
                elif h in s:
                    s.remove(h)
        cls._mro = out
        return out

    def is_subclass(self, c, base_name):
        return any(x.name == base_name for x in self.mro(c))

    def subclasses(self, cls):
        return [c for c in self.all_classes() if cls in self.mro(c)]

    def class_ext_bases(self, cls):
        out = []
        for c in self.mro(cls):
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = self.resolve_expr(c.module, b)
                if r is None and isinstance(b, ast.Name):
                    out.append(b.id)
                elif isinstance(r, tuple) and r[0] == "ext":
                    out.append(r[1])
        return out

    def ann_class(self, m, ann, extra=None):
        """Class named by an annotation (unwraps Optional/Type/str)."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            b = ann.value
            nm = b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "")
            if nm in ("Optional",):
                return self.ann_class(m, ann.slice, extra)
            if nm == "Union" and isinstance(ann.slice, ast.Tuple):
                cs = [self.ann_class(m, x, extra) for x in ann.slice.elts]
                cs = [c for c in cs if c]
                return cs[0] if len(cs) == 1 else None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            cs = [self.ann_class(m, x, extra) for x in (ann.left, ann.right)]
            cs = [c for c in cs if c]
            return cs[0] if len(cs) == 1 else None
        r = self.resolve_expr(m, ann, extra)
        return r if isinstance(r, ClassInfo) else None

    def attr_class(self, cls, attr):
        """Class of instances held by ``self.<attr>`` when annotated, or
        assigned from a constructor / an annotated parameter."""
        key = (cls.qual, attr)
        if key in self._lookup_cache:
            return self._lookup_cache[key]
        self._lookup_cache[key] = None
        res = None
        for c in self.mro(cls):
            if attr in c.annotations:
                res = self.ann_class(c.module, c.annotations[attr])
                if res:
                    break
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.AnnAssign):
                        tgts, val, ann = [n.target], n.value, n.annotation
                    elif isinstance(n, ast.Assign):
                        tgts, val, ann = n.targets, n.value, None
                    else:
                        continue
                    for t in tgts:
                        if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == "self":
                            if ann is not None:
                                res = res or self.ann_class(c.module, ann)
                            if isinstance(val, ast.Call):
                                r = self.resolve_expr(c.module, val.func)
                                if isinstance(r, ClassInfo):
                                    res = res or r
                            elif isinstance(val, ast.Name):
                                for a in f.node.args.args + f.node.args.kwonlyargs:
                                    if a.arg == val.id:
                                        res = res or self.ann_class(c.module, a.annotation)
                if res:
                    break
            if res:
                break
        self._lookup_cache[key] = res
        return res

    def init_only_attrs(self, cls):
        """Attributes assigned in __init__/__new__/__cinit__ and never elsewhere
        in the class family (by any ``x.attr = ...`` in the package)."""
        key = ("initonly",)
        if key not in self._lookup_cache:
            outside = set()
            for f in self.all_funcs():
                if f.name in ("__init__", "__cinit__", "__new__", "__setstate__"):
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        outside.add(n.attr)
            self._lookup_cache[key] = outside
        return self._lookup_cache[key]

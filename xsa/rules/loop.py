"""C26: effects of coroutines.  Blocking effects reachable over the call graph, thread locks held at suspension points
or around blocking effects, and tables of the library iterated over while the coroutine suspends."""
import ast

from ..model import ClassInfo
from ..types import Types, base, own
from .common import *

INST = {  # instance of -> methods that wait
    "threading.Thread": {"join"}, "threading.Event": {"wait"}, "threading.Condition": {"wait", "wait_for"}, "threading.Barrier": {"wait"}, "threading.Timer": {"join"},
    "subprocess.Popen": {"wait", "communicate"}, "queue.Queue": {"get", "join"}, "queue.LifoQueue": {"get", "join"}, "queue.PriorityQueue": {"get", "join"}, "queue.SimpleQueue": {"get"},
    "multiprocessing.Process": {"join"}, "multiprocessing.Queue": {"get", "join"}, "multiprocessing.Event": {"wait"}, "multiprocessing.Pool": {"join", "map", "apply"},
    "multiprocessing.pool.ThreadPool": {"join", "map", "apply"},
    "concurrent.futures.Future": {"result", "exception"}, "asyncio.run_coroutine_threadsafe": {"result", "exception"},
    "concurrent.futures.ThreadPoolExecutor": {"shutdown", "map"}, "concurrent.futures.ProcessPoolExecutor": {"shutdown", "map"},
    "socket.socket": {"accept", "recv", "recv_into", "recvfrom", "sendall", "connect"}, "socket.create_connection": {"recv", "sendall"},
    "psutil.Process": {"wait"}, "asyncio.new_event_loop": {"run_until_complete", "run_forever"}, "asyncio.get_event_loop": {"run_until_complete", "run_forever"},
    "asyncio.get_running_loop": {"run_until_complete", "run_forever"},
    "selectors.DefaultSelector": {"select"},
}
FUNCS = {"time.sleep", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.getoutput", "subprocess.getstatusoutput",
         "os.system", "os.wait", "os.waitpid", "os.wait3", "os.wait4", "os.popen", "signal.pause", "signal.sigwait", "builtins.input", "asyncio.run", "concurrent.futures.wait",
         "concurrent.futures.as_completed", "multiprocessing.connection.wait", "select.select", "urllib.request.urlopen", "socket.create_connection", "psutil.wait_procs",
         "requests.get", "requests.post", "requests.request"}
LOCKS = {"threading.Lock", "threading.RLock", "threading.Condition", "threading.Semaphore", "threading.BoundedSemaphore", "multiprocessing.Lock", "multiprocessing.RLock", "multiprocessing.Semaphore"}
OFFLOOP = {"to_thread", "run_in_executor", "submit", "Thread", "Process", "Timer", "start_new_thread", "map"}
MUTATE = {"append", "add", "insert", "extend", "update", "pop", "popitem", "popleft", "appendleft", "remove", "discard", "clear", "setdefault", "sort", "reverse"}
COPY = {"list", "tuple", "set", "dict", "frozenset", "sorted", "copy", "deepcopy", "OrderedDict", "deque", "WeakSet"}
VIEW = {"values", "items", "keys"}
SKIP = ("xoscar.virtualenv", "xoscar._version", "xoscar.nvutils")


def build(ctx):
    t = Types(ctx.prog, skip=lambda m: ".tests" in m.name or ".test." in m.name or m.name.endswith(".test"))
    return t


def suspends(n):
    return isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith))


class Loop:
    def __init__(self, ctx):
        self.ctx = ctx
        self.t = build(ctx)
        self.calls = {}        # Fn -> [(call node, [callee Fn])]
        self.sites = {}        # Fn -> [(call node, caller Fn)]
        self.blocks = {}       # Fn -> [(node, what)]
        self.nsites = 0
        for f in self.t.fns:
            self._collect(f)

    # -- effects of one function
    def _collect(self, f):
        out, blk = [], []
        awaited = {id(n.value) for n in f.body if isinstance(n, ast.Await)}
        off = set()
        for n in f.body:
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if nm in OFFLOOP:
                    off.update(id(a) for a in n.args)
                    off.update(id(k.value) for k in n.keywords)
        for n in f.body:
            if isinstance(n, ast.Lambda) and id(n) not in off:
                out.append((n, [self.t.of[id(n)]]))     # may be called here
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                props = [g for k in self.t.ev(n.value, f) if k[0] == "o" for g in self.t.methods(k[1], n.attr) if g.decos & {"property", "cached_property"}]
                if props:
                    out.append((n, props))
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    gs, w = self._with(n, i, f)
                    if gs:
                        out.append((n, gs))
                    if w and isinstance(n, ast.With):
                        blk.append((n, w))
            if not isinstance(n, ast.Call):
                continue
            self.nsites += 1
            ks = self.t.ev(n.func, f)
            gs = []
            for k in ks:
                gs += self._callees(k)
            if not ks and isinstance(n.func, ast.Attribute):
                gs += self.t.guess(n.func.attr)
            if gs:
                out.append((n, gs))
                for g in gs:
                    self.sites.setdefault(g, []).append((n, f))
            if id(n) in awaited:
                continue
            w = self._blocking(n, ks, f)
            if w:
                blk.append((n, w))
        self.calls[f] = out
        self.blocks[f] = blk

    def _callees(self, k):
        if k[0] == "f":
            return [k[1]]
        if k[0] == "part":
            return self._callees(k[1])
        if k[0] == "c":
            return [g for nm in ("__init__", "__new__", "__cinit__") for g in self.t.methods(k[1], nm, down=False)]
        if k[0] == "o":
            return self.t.methods(k[1], "__call__")
        return []

    def _with(self, w, item, f):
        gs, what = [], None
        for k in self.t.ev(item.context_expr, f):
            if k[0] == "cm":
                gs.append(k[1])
            elif k[0] == "o":
                gs += [g for nm in (("__enter__", "__exit__") if isinstance(w, ast.With) else ("__aenter__", "__aexit__")) for g in self.t.methods(k[1], nm)]
            elif k[0] == "i" and k[1] in ("concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor", "subprocess.Popen"):
                what = f"the end of a with block on {k[1].split('.')[-1]}"
        return gs, what

    def _inst(self, name):
        if name in INST:
            return INST[name]
        r = name.split(".")
        if r[-1] in ("Process", "Thread", "Popen", "Timer") and r[0] in ("multiprocessing", "threading", "subprocess"):
            return {"join"} if r[0] != "subprocess" else {"wait", "communicate"}
        if r[0] == "multiprocessing" and r[-1] in ("Event", "Queue", "Condition", "Barrier"):
            return {"wait", "get", "join"}
        return set()

    def _blocking(self, n, ks, f):
        for k in ks:
            if k[0] == "x" and k[1] in FUNCS:
                return k[1]
            if k[0] == "a":
                obj, m = k[1].rsplit(".", 1)
                if m in self._inst(obj) and not self._instant(n, m):
                    return f"{obj.split('.')[-1]}.{m}" if obj != "asyncio.run_coroutine_threadsafe" else f"the {m} of run_coroutine_threadsafe"
            if k[0] == "x" and "." in k[1]:      # a method inherited from a class of another package
                obj, m = k[1].rsplit(".", 1)
                if m in self._inst(obj) and not self._instant(n, m):
                    return f"{obj.split('.')[-1]}.{m}"
        return None

    @staticmethod
    def _instant(n, m):
        kw = {k.arg: k.value for k in n.keywords}
        zero = lambda v: isinstance(v, ast.Constant) and v.value in (0, False)
        if m == "shutdown":
            return zero(kw.get("wait")) or bool(n.args) and zero(n.args[0])
        if m == "get":
            return zero(kw.get("block")) or bool(n.args) and zero(n.args[0])
        if m in ("join", "wait", "result", "exception", "communicate"):
            return zero(kw.get("timeout")) or bool(n.args) and zero(n.args[0])
        return False

    # -- blocking effects reachable
    def roots(self):
        for f in self.t.fns:
            if f.is_async and not f.module.name.startswith(SKIP):
                yield f

    def reach(self, root):
        """first blocking effect reachable from a coroutine without leaving the loop thread"""
        seen, todo = {root}, [(root, [])]
        out = []
        while todo:
            f, path = todo.pop(0)
            for n, w in self.blocks[f]:
                out.append((f, n, w, path))
            for n, gs in self.calls[f]:
                for g in gs:
                    if g.is_async or g in seen or g.gen and not (g.decos & {"contextmanager", "asynccontextmanager"}) and False:
                        continue
                    seen.add(g)
                    todo.append((g, path + [f"{g.qual} ({f.module.rel}:{n.lineno})"]))
        self.reached |= seen
        return out

    # -- locks
    def lock_of(self, e, f):
        """name of the thread lock an expression is"""
        ks = self.t.ev(e, f)
        if any(k[0] == "i" and k[1] in LOCKS for k in ks):
            return e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "lock")
        return None

    def held(self, f):
        """[(lock name, node, nodes executed while it is held)]"""
        out = []
        for n in f.body:
            if isinstance(n, ast.With):
                for i in n.items:
                    nm = self.lock_of(i.context_expr, f)
                    if nm is None:
                        for k in self.t.ev(i.context_expr, f):
                            if k[0] == "cm":
                                nm = nm or next((l for l, x, b in self.held(k[1]) if any(isinstance(y, ast.Yield) for y in b)), None)
                    if nm:
                        body = [x for st in n.body for x in [st, *own_stmt(st)]]
                        out.append((nm, n, body))
        acq = []
        rel = []
        for n in f.body:
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("acquire", "release"):
                    nm = self.lock_of(n.func.value, f)
                    if nm:
                        (acq if n.func.attr == "acquire" else rel).append((pos(n), nm, n))
                    continue
                for g in [g for x, gs in self.calls.get(f, []) if x is n for g in gs]:
                    e = self.lock_effect(g)
                    for nm in e:
                        (acq if e[nm] > 0 else rel).append((pos(n), nm, n))
        for p, nm, n in acq:
            end = min((q for q, m, _ in rel if m == nm and q > p), default=(10 ** 9, 0))
            out.append((nm, n, [x for x in f.body if hasattr(x, "lineno") and p < pos(x) < end]))
        return out

    def lock_effect(self, g, depth=0):
        c = self.__dict__.setdefault("_le", {})
        if g not in c:
            c[g] = {}
            e = {}
            if not g.is_async:
                for n in g.body:
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("acquire", "release"):
                        nm = self.lock_of(n.func.value, g)
                        if nm:
                            e[nm] = e.get(nm, 0) + (1 if n.func.attr == "acquire" else -1)
            c[g] = {k: v for k, v in e.items() if v}
        return c[g]

    # -- suspension
    def may_suspend(self, n, f, seen=()):
        """whether a node of f can suspend the coroutine: awaiting a coroutine of the library that never suspends does not"""
        if isinstance(n, ast.Yield):
            return True
        if not isinstance(n, ast.Await) or not isinstance(n.value, ast.Call):
            return suspends(n)
        gs = next((gs for x, gs in self.calls[f] if x is n.value), [])
        if not gs or not all(g.is_async for g in gs):
            return True
        return any(g in seen or self.fn_suspends(g, seen) for g in gs if g not in seen)

    def fn_suspends(self, g, seen=()):
        c = self.__dict__.setdefault("_sus", {})
        if g not in c:
            r = any(self.may_suspend(x, g, seen + (g,)) for x in g.body if suspends(x))
            if seen:
                return r
            c[g] = r
        return c[g]

    # -- tables
    def src(self, e, f, depth=0, seen=()):
        """attributes (name, level) an expression may be, not a copy of"""
        if depth > 12 or e is None:
            return set()
        go = lambda x, ff=f: self.src(x, ff, depth + 1, seen)
        if isinstance(e, ast.Attribute):
            ks = self.t.ev(e.value, f)
            props = [g for k in ks if k[0] in ("o", "c") for g in self.t.methods(k[1], e.attr)]
            if props:
                return set().union(*[self.returned(g, depth, seen) for g in props if g.decos & {"property", "cached_property", "classproperty"}])
            return {(e.attr, 0)}
        if isinstance(e, ast.Name):
            return self.local(e.id, f, depth, seen)
        if isinstance(e, ast.Subscript):
            return set() if isinstance(e.slice, ast.Slice) else {(a, d + 1) for a, d in go(e.value)}
        if isinstance(e, ast.IfExp):
            return go(e.body) | go(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[go(x) for x in e.values])
        if isinstance(e, (ast.NamedExpr, ast.Starred)):
            return go(e.value)
        if isinstance(e, ast.GeneratorExp):
            return go(e.generators[0].iter)
        if isinstance(e, ast.Call):
            fn = e.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
            if isinstance(fn, ast.Attribute):
                if nm in VIEW:
                    return go(fn.value)
                if nm in ("get", "setdefault", "pop"):
                    return {(a, d + 1) for a, d in go(fn.value)}
            if nm in ("enumerate", "zip", "reversed", "iter", "filter", "map", "chain", "islice"):
                return set().union(*[go(a) for a in e.args])
            if nm in COPY:
                return set()
            gs = [g for x, gs in self.calls.get(f, []) if x is e for g in gs]
            return set().union(*[self.returned(g, depth, seen) for g in gs if not g.is_async]) if gs else set()
        return set()

    def returned(self, g, depth, seen):
        if g in seen or g.gen:
            return set()
        return set().union(set(), *[self.src(n.value, g, depth + 1, seen + (g,)) for n in g.body if isinstance(n, ast.Return) and n.value is not None])

    def local(self, name, f, depth, seen):
        s = f
        while s is not None and name not in s.vars and name not in s.nested:
            s = s.parent
        if s is None:
            return {("g:" + name, 0)} if name in f.module.vars else set()
        if (s, name) in seen:
            return set()
        seen = seen + ((s, name),)
        out = set()
        for n in s.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Name) and t.id == name:
                        out |= self.src(n.value, s, depth + 1, seen)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        for x, v in zip(t.elts, n.value.elts):
                            if isinstance(x, ast.Name) and x.id == name:
                                out |= self.src(v, s, depth + 1, seen)
            elif isinstance(n, (ast.For, ast.comprehension)):
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                    out |= {(a, d + 1) for a, d in self.src(n.iter, s, depth + 1, seen)}
        if name in s.params:
            off = 1 if s.cls is not None and s.parent is None and not s.static else 0
            i = s.posargs.index(name) - off if name in s.posargs else None
            for n, caller in self.sites.get(s, []):
                a = next((k.value for k in n.keywords if k.arg == name), None)
                if a is None and i is not None and 0 <= i < len(n.args):
                    a = n.args[i]
                if a is not None:
                    out |= self.src(a, caller, depth + 1, seen)
        return out

    def mutated(self):
        out = {}
        for f in self.t.fns:
            if f.name in ("__init__", "__cinit__", "__new__", "__setstate__"):
                continue
            for n in f.body:
                ts = []
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE:
                    ts = [n.func.value]
                elif isinstance(n, (ast.Assign, ast.Delete)):
                    ts = [t.value for t in n.targets if isinstance(t, ast.Subscript)]
                elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.BitOr, ast.Add, ast.Sub, ast.BitAnd)) and isinstance(n.target, ast.Attribute) and not isinstance(n.value, ast.Constant):
                    ts = [n.target]
                for t in ts:
                    for a in self.src(t, f):
                        out.setdefault(a, f"{f.module.rel}:{n.lineno}")
        return out


def own_stmt(st):
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return []
    return list(own(st))


def pos(n):
    return (n.lineno, n.col_offset)


def goes_on(loop, node):
    """whether the loop can take another round after the node"""
    def find(stmts):
        """None: not in here; else whether control can pass from the node to the end of the suite or to the next round"""
        for i, st in enumerate(stmts):
            if st is node or any(x is node for x in own_stmt(st)) or any(x is node for x in ast.walk(st)):
                if isinstance(st, (ast.Return, ast.Raise)):
                    return False
                r = True
                for fld in ("body", "orelse", "finalbody"):
                    sub = getattr(st, fld, None)
                    if sub and isinstance(sub, list) and any(x is node for y in sub for x in ast.walk(y)):
                        r = find(sub)
                for h in getattr(st, "handlers", []):
                    if any(x is node for y in h.body for x in ast.walk(y)):
                        r = find(h.body)
                if not r:
                    return False
                for later in stmts[i + 1:]:
                    if isinstance(later, ast.Continue):
                        return True
                    if isinstance(later, (ast.Break, ast.Return, ast.Raise)):
                        return False
                return True
        return None
    r = find(loop.body)
    return bool(r)


def loop(ctx: Ctx):
    lp = Loop(ctx)
    lp.reached = set()
    t = lp.t
    for m in t.mods:
        ctx.modules.add(m.rel)
    roots = list(lp.roots())
    ctx.need(roots, "coroutines", 150)
    ctx.anchors["call sites"] = lp.nsites
    ctx.anchors["functions"] = len(t.fns)
    seen = set()
    for r in sorted(roots, key=lambda f: (f.module.rel, f.node.lineno)):
        bad = False
        for f, n, w, path in lp.reach(r):
            bad = True
            if (f, n.lineno) in seen:
                continue
            seen.add((f, n.lineno))
            ctx.bad("coroutine-blocks", f.qual, f"{f.module.rel}:{n.lineno}", f"{w} blocks the event loop: it is reached from the coroutine {r.qual}" + (f" through {' -> '.join(path)}" if path else ""))
        if not bad:
            ctx.ok("coroutine-blocks", r.qual)
    ctx.anchors["functions reached from coroutines"] = len(lp.reached)
    # thread locks
    locks = {}
    for f in t.fns:
        for nm, n, body in lp.held(f):
            locks.setdefault(nm, []).append((f, n, body))
    for nm, hs in sorted(locks.items()):
        for f, n, body in hs:
            where = f"{f.module.rel}:{n.lineno}"
            s = next((x for x in body if suspends(x) or f.is_async and isinstance(x, ast.Yield)), None)
            ctx.check(s is None, "lock-across-await", f"{f.qual}: {nm}", where, f"the thread lock {nm} is held while the coroutine is suspended" + (f" at line {s.lineno}" if s is not None else ""))
            if not any(g in lp.reached for g, _, _ in hs):
                continue
            ids = {id(x) for x in body}
            w = next((w for x, w in lp.blocks[f] if id(x) in ids and x is not n), None)
            if w is None:
                for x, gs in lp.calls[f]:
                    if id(x) in ids:
                        for g in gs:
                            if not g.is_async:
                                w = w or next((b[2] for b in lp.reach(g)), None)
            ctx.check(w is None, "lock-around-blocking", f"{f.qual}: {nm}", where, f"{w} is waited for while the thread lock {nm}, which coroutines take, is held")
    # tables
    mut = lp.mutated()
    n_it = 0
    for f in t.fns:
        if not f.is_async or f.module.name.startswith(SKIP):
            continue
        for n in f.body:
            if isinstance(n, ast.For):
                it = n.iter
                sus = [x for st in n.body for x in [st, *own_stmt(st)] if (suspends(x) or isinstance(x, ast.Yield)) and lp.may_suspend(x, f) and goes_on(n, x)]
                where = n
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp)):
                it, where = n.generators[0].iter, n
                parts = ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]) + [i for g in n.generators for i in g.ifs] + [g.iter for g in n.generators[1:]]
                sus = [x for p in parts for x in [p, *own_expr(p)] if suspends(x) and lp.may_suspend(x, f)]
            else:
                continue
            if not sus:
                continue
            n_it += 1
            hit = sorted((a, d) for a, d in lp.src(it, f) if (a, d) in mut)
            ctx.check(not hit, "iterate-while-suspended", f"{f.qual}", f"{f.module.rel}:{where.lineno}",
                      f"{', '.join(a for a, _ in hit)} is iterated over while the coroutine suspends; it is changed at {mut[hit[0]] if hit else ''}")
    ctx.anchors["loops that suspend"] = n_it


def own_expr(e):
    return [] if isinstance(e, ast.Lambda) else list(own(e))

"""C24: diagnostics never change behaviour, by abstract interpretation of every hook with diagnostics off and on and every
outcome of the code it surrounds."""
import ast
import json

from ..machine import GenObj
from ..shapes import Env, Part
from .contexts import V
from .mutex import Act
from .records import *
from .results import exc
from .stopping import nap

ENDS = ("value", "ValueError", "CancelledError", "KeyboardInterrupt", "StopIteration")
MODES = ("off", "on", "on without limits", "on without traces")


class Trace:
    """The context variable that holds the message trace of the running call."""

    def __init__(self, it, value=None):
        self.v, self.touched = value, 0
        mod = it.prog.module("debug")
        tokens = []

        def get(it, a, k):
            self.touched += 1
            return self.v if self.v is not None or not a else a[0]

        def set_(it, a, k):
            self.touched += 1
            tokens.append(self.v)
            self.v = a[0]
            return Stub("token", {"old": tokens[-1]})

        def reset(it, a, k):
            self.touched += 1
            self.v = a[0].attrs["old"]
        self.stub = Stub("trace variable", {}, {"get": get, "set": set_, "reset": reset})
        it.mods[(mod.name, "_message_trace_var")] = self.stub

    def items(self):
        return None if self.v is None else tuple((x.attrs["uid"], x.attrs["address"], x.attrs["method"]) for x in items(self.v))


def items(v):
    return list(v.parts) if isinstance(v, Seq) else list(v) if isinstance(v, (list, tuple)) else []


class Log:
    """Everything the library logs: an effect of its own, never a behaviour."""

    def __init__(self, it):
        self.n = 0

        def log(it, a, k):
            self.n += 1
        m = {n: log for n in ("warning", "info", "debug", "error", "exception")}
        self.stub = Stub("logger", {}, m)
        it.mods[(it.prog.module("debug").name, "logger")] = self.stub


def switch(it, mode):
    """Sets the debug options the way a user does."""
    d = it.prog.module("debug").defs
    for n in ("debug.debug_async_timeout", "debug.record_message_trace", "debug.detect_cycle_send"):
        it.stubs.pop(n, None)
    if mode == "off":
        o = None
    else:
        o = it.call(d["DebugOptions"], [], [])
        if mode == "on without limits":
            for n in ("actor_call_timeout", "process_message_timeout", "actor_lock_timeout"):
                it.setattr(o, n, 0)
        if mode == "on without traces":
            it.setattr(o, "log_cycle_send", False)
            it.setattr(o, "log_unhandled_errors", False)
    it.call(d["set_debug_options"], [o], [])
    return o


def within(it, cm, body):
    it.with_items([ast.withitem(context_expr=ast.Constant(cm), optional_vars=None)], body, None, False)


def watch_tasks(it):
    made = []
    old = it.spawn

    def spawn(c, *a, **k):
        t = old(c, *a, **k)
        if t.label != "later":
            made.append(t)
        return t
    it.spawn = spawn
    return made


def send_message(it, uid=A, addr=MAIN, trace=None, cls="SendMessage", **kw):
    m = message(it, cls, message_id=T("id"), actor_ref=ref(it, addr, uid), content=Seq("tuple", ["method", 0, Seq("tuple", ["x"]), Dct()]), **kw)
    m.attrs["message_trace"] = trace
    return m


def entry(it, uid, addr=MAIN, name="method"):
    return it.call(it.prog.module("debug").defs["MessageTraceItem"], [], [("uid", uid), ("address", addr), ("method", name)])


def surrounded(it, body_end, cm, check=None):
    """runs `with cm:` around a body with the outcome; returns what came out"""
    err, ran = [], [0]

    def body():
        ran[0] += 1
        if check:
            check()
        it.pause()
        if body_end != "value":
            e = it.excval(Exc(body_end, ["boom"]))
            err.append(e)
            raise Raised(e)
    st, v = attempt(it, lambda: within(it, cm, body))
    it.claim(ran[0] == 1, "the surrounded code does not run exactly once")
    if body_end == "value":
        it.claim(st == "ok", "a diagnostic hook fails the code it surrounds")
    else:
        it.claim(st == "raise" and bool(err) and v is err[0], "a diagnostic hook swallows or replaces the error of the code it surrounds")
    return st


def diagnostics(ctx: Ctx):
    D = ctx.prog.module("debug").defs
    prof = ctx.prog.module("profiling").defs
    api = ctx.prog.module("metrics.api").defs

    def timeout(it):
        mode, end = outcome(it, "diagnostics", *MODES), outcome(it, "the code", *ENDS)
        switch(it, mode)
        tr, log = Trace(it, V("trace")), Log(it)
        made = watch_tasks(it)
        name = outcome(it, "option", "actor_call_timeout", "no such option")
        cm = it.call(D["debug_async_timeout"], [name, "message %s", V("x")], [])
        surrounded(it, end, cm)
        it.claim(bool(made) == (mode in ("on", "on without traces") and name == "actor_call_timeout"), "a timeout is watched when it is not asked for, or not watched when it is")
        it.spawn(Coro(lambda: nap(it, 3), "later"), "later")
        it.drain()
        it.claim(all(t.done for t in made[:1]), "the reporter of timeouts goes on after the code it watches ended")
        it.claim(tr.v is not None and not tr.touched, "a timeout changes the message trace")
        it.claim(log.n == 0 or mode.startswith("on"), "something is reported while diagnostics are off")
    Sc(ctx, "diagnostics", D["debug_async_timeout"]).run("watching a timeout", timeout)

    def record(it):
        mode, end = outcome(it, "diagnostics", *MODES), outcome(it, "the code", *ENDS)
        switch(it, mode)
        tr, log = Trace(it), Log(it)
        before = outcome(it, "trace of the message", None, "empty", "one")
        given = None if before is None else Seq("list", [] if before == "empty" else [entry(it, B)])
        m = send_message(it, trace=given)
        want = ([] if before != "one" else [(B, MAIN, "method")]) + [(A, MAIN, "method")]
        on = mode in ("on", "on without limits")

        def inside():
            it.claim(tr.items() == (tuple(want) if on else None), "the trace of the running call is not the trace of its message followed by the call")
        surrounded(it, end, it.call(D["record_message_trace"], [m], []), inside)
        it.claim(not tr.v, "the trace of a call outlives it")
        it.claim(on or not tr.touched, "a trace is kept while traces are off")
        left = m.attrs["message_trace"]
        it.claim(left is given and len(items(left)) == (1 if before == "one" else 0), "recording a trace changes the message")
    Sc(ctx, "diagnostics", D["record_message_trace"]).run("recording a trace", record)

    def without(it):
        mode, end = outcome(it, "diagnostics", *MODES), outcome(it, "the code", *ENDS)
        switch(it, mode)
        old = outcome(it, "trace", None, "some") and Seq("list", [entry(it, B)])
        tr = Trace(it, old)
        on = mode in ("on", "on without limits")

        def inside():
            it.claim(not on or not tr.v, "the trace is seen by code that must not see it")
        surrounded(it, end, it.call(D["no_message_trace"], [], []), inside)
        it.claim(tr.v is old, "the trace of the running call is lost by code that runs without one")
        it.claim(on or not tr.touched, "a trace is moved while traces are off")
    Sc(ctx, "diagnostics", D["no_message_trace"]).run("running without a trace", without)

    def cycle(it):
        mode = outcome(it, "diagnostics", *MODES)
        switch(it, mode)
        kept = {"none": None, "empty": [], "other": [(B, MAIN)], "same id elsewhere": [(A, SUB1)], "same": [(B, MAIN), (A, MAIN)]}
        have = outcome(it, "trace", *kept)
        old = None if kept[have] is None else Seq("list", [entry(it, u, a) for u, a in kept[have]])
        tr, log = Trace(it, old), Log(it)
        wait = outcome(it, "answer awaited", True, False)
        m = send_message(it)
        st, v = attempt(it, lambda: it.call(D["detect_cycle_send"], [m, wait], []))
        it.claim(st == "ok", "detecting cycles fails the call")
        on = mode in ("on", "on without limits") and wait
        it.claim(bool(log.n) == (on and have == "same"), "a cycle of calls is not reported, or something else is reported as one")
        got = m.attrs["message_trace"]
        it.claim([(x.attrs["uid"], x.attrs["address"]) for x in items(got)] == ((kept[have] or []) if on else []), "a message carries another trace than the one of the call that sends it")
        it.claim(tr.v is old and len(items(old)) == len(kept[have] or []), "detecting cycles changes the trace of the running call")
        it.claim(on or not tr.touched, "a trace is read while traces are off")
    Sc(ctx, "diagnostics", D["detect_cycle_send"]).run("detecting cycles", cycle)

    def timing(it):
        end = outcome(it, "the code", *ENDS)
        clock = [V("start"), V("end")]
        seen, got = [], []
        it.exts["time.time"] = Native(lambda it, a, k: seen.append(1) or len(seen) ** 2, "time.time")
        pc = api["Percentile"]

        def build(name):
            def f(it, a, k):
                o = Stub(f"percentile {name}", {}, {"record_data": lambda it, a, k: got.append((name, a[0]))})
                o.args = (a, k)
                return o
            return Native(f, name)
        T99 = V("type")
        it.mods[(ctx.prog.module("metrics.api").name, "_percentile_builder")] = Dct([("p99", build("p99")), ("p95", build("p95"))])
        arg = lambda n: Seq("tuple", [n, V("callback"), 10])  # noqa: E731
        del clock, T99, pc
        surrounded(it, end, it.call(api["record_time_cost_percentile"], [Seq("list", [arg("p99"), arg("p95")])], []))
        if end == "value":
            it.claim([n for n, _ in got] == ["p99", "p95"], "the time spent is not recorded once in every percentile")
            it.claim(all(v == 3 for _, v in got), "the time recorded is not the time spent")
    Sc(ctx, "diagnostics", api["record_time_cost_percentile"]).run("recording the time spent", timing)

    flags(ctx)
    actors(ctx)
    pools(ctx)
    calls(ctx, prof)
    sends(ctx)
    timeouts(ctx)
    recorded(ctx, prof)


def timeouts(ctx):
    U = ctx.prog.module("utils").defs
    CT = "__xoscar_asyncio_task_create_time__"

    def class_loop(it, raw, n):
        cls = Stub("loop class", {"create_task": Native(raw, "create_task")})

        def default(it, name):
            if name == "create_task":
                return Part(cls.attrs["create_task"], [lp], [])
            it.raise_("AttributeError", name)
        lp = Stub(f"loop {n}", {"__class__": cls}, default=default)
        return cls, lp

    def patched(it):
        made = []

        def raw(it, a, k):
            t = Stub("task", {"args": list(a), "kw": list(k)})
            made.append(t)
            return t
        cls, lp = class_loop(it, raw, 1)
        other = Stub("loop 2", {"__class__": cls}, default=lambda it, n: Part(cls.attrs["create_task"], [other], []) if n == "create_task" else it.raise_("AttributeError", n))
        running = outcome(it, "loop", "running", "none")
        n = outcome(it, "applied", 1, 2, 3)

        def get(it, a, k):
            if running == "none":
                it.raise_("RuntimeError")
            return lp
        it.stubs.update({"asyncio.get_running_loop": get, "asyncio.new_event_loop": lambda it, a, k: lp})
        it.stubs["time.time"] = lambda it, a, k: it.now
        for _ in range(n):
            it.call(U["patch_asyncio_task_create_time"], [], [])
        for l in (lp, other):
            del made[:]
            c = T("coroutine")
            nap(it, 3)
            named = outcome(it, "named", True, False)
            st, t = attempt(it, lambda: it.call(it.attr(l, "create_task"), [c], [("name", "n")] if named else []))
            it.claim(st == "ok" and len(made) == 1 and t is made[0], "noting the creation times of tasks changes what creating a task gives")
            it.claim(len(made) == 1 and made[0].attrs["args"][0] is l and made[0].attrs["args"][1:] == [c] and dict(made[0].attrs["kw"]) == ({"name": "n"} if named else {}), "noting the creation times of tasks changes the tasks created")
            it.claim(st == "ok" and isinstance(t, Stub) and t.attrs.get(CT) == it.now, "the creation time of a task is not the time it was created")
    Sc(ctx, "diagnostics", U["patch_asyncio_task_create_time"]).run("creating tasks with their time noted", patched)

    f = U["asyncio_task_timeout_detector"]

    def detect(it):
        log, touched = [], []
        limit = outcome(it, "limit", 4, 12)
        it.mods[(ctx.prog.module("utils").name, "logger")] = Stub("logger", {}, {"warning": lambda it, a, k: log.append(a)})
        it.stubs["time.time"] = lambda it, a, k: it.now

        def task(name, at, text):
            def default(it, n):
                touched.append((name, n))
                return Native(lambda it, a, k: None, n)
            x = Stub(name, {} if at is None else {CT: at}, {"__str__": lambda it, a, k: text, "print_stack": lambda it, a, k: None}, default=lambda it, n: it.raise_("AttributeError", n) if n == CT else default(it, n))
            return x
        ts = [task("old", 0, "<Task old>"), task("excluded", 0, "<Task skipped-one>"), task("unknown", None, "<Task unknown>"), task("young", 9, "<Task young>")]
        order = outcome(it, "order", 0, 1)
        it.stubs["asyncio.all_tasks"] = lambda it, a, k: Seq("set", ts[::-1] if order else ts)
        it.stubs["asyncio.get_running_loop"] = lambda it, a, k: Stub("loop")
        it.stubs["StringIO"] = it.stubs["io.StringIO"] = lambda it, a, k: Stub("text", {}, {"getvalue": lambda it, a, k: "stack"})
        run = it.spawn(it.call(f, [5, limit, Seq("list", ["other", "skipped"])], []), "detector")
        it.await_(it.spawn(Coro(lambda: nap(it, 17), "time"), "time"))
        it.claim(not run.done, "reporting overdue tasks ends")
        want = [ts[0] for at in (5, 10, 15) if at - 0 >= limit] + [ts[3] for at in (5, 10, 15) if at - 9 >= limit]
        got = [x for a in log for x in a if any(x is t for t in ts)]
        it.claim(sorted(map(id, got)) == sorted(map(id, want)), "the tasks reported are not the ones that take longer than the limit and are not excluded")
        it.claim(not touched, "reporting overdue tasks does something to them")
        it.call(it.attr(run, "cancel"), [], [])
        it.drain()
        it.claim(run.done, "reporting overdue tasks cannot be ended")
    Sc(ctx, "diagnostics", f).run("reporting overdue tasks", detect)

    g = U["register_asyncio_task_timeout_detector"]

    def register(it):
        it.stubs.pop("register_asyncio_task_timeout_detector", None)
        how = outcome(it, "asked for by", "nobody", "arguments", "environment", "environment and arguments")
        patched, made = [], []
        it.stubs["patch_asyncio_task_create_time"] = lambda it, a, k: patched.append(1)
        it.stubs["asyncio_task_timeout_detector"] = lambda it, a, k: Stub("detector", {"args": list(a)})
        lp = Stub("loop", {}, {"create_task": lambda it, a, k: (made.append(a[0]), "the task")[1]})
        it.stubs["asyncio.get_running_loop"] = it.stubs["asyncio.get_event_loop"] = lambda it, a, k: lp
        it.stubs["asyncio.create_task"] = lambda it, a, k: (made.append(a[0]), "the task")[1]
        it.mods[(ctx.prog.module("utils").name, "logger")] = Stub("logger", {}, {n: (lambda it, a, k: None) for n in ("info", "warning")})
        it.exts["sys.version_info"] = Seq("tuple", [3, 12, 0])
        E = "XOSCAR_DEBUG_ASYNCIO_TASK_"
        it.exts["os.environ"] = Dct([(E + "TIMEOUT_CHECK_INTERVAL", "7"), (E + "TIMEOUT_SECONDS", "9"), (E + "EXCLUDE_FILTERS", "a;b")] if "environment" in how else [])
        args = [("check_interval", 2), ("task_timeout_seconds", 3), ("task_exclude_filters", Seq("list", ["c"]))] if "arguments" in how else []
        r = it.call(g, [], args)
        if how == "nobody":
            it.claim(r is None and not patched and not made, "tasks are watched without being asked for")
            return
        it.claim(bool(patched) and r == "the task" and len(made) == 1, "tasks are not watched though it was asked for")
        want = (2, 3, ["c"]) if args else (7, 9, ["a", "b"])
        got = made[0].attrs["args"] if made else []
        it.claim(len(got) == 3 and (got[0], got[1], it.parts_of(got[2])) == want, "tasks are watched with other limits than asked for")
    Sc(ctx, "diagnostics", g).run("asking for overdue tasks", register)


def counter(it):
    d = {}

    def get(it, a, k):
        return d.get(it.fz(a[0]), (None, 0))[1]

    def put(it, a, k):
        d[it.fz(a[0])] = (a[0], a[1])

    def common(it, a, k):
        return Seq("list", [Seq("tuple", [x, n]) for x, n in sorted(d.values(), key=lambda e: -e[1])[: a[0] if a else None]])

    def update(it, a, k):
        for x in it.iterate(a[0]):
            put(it, [x, get(it, [x], k) + 1], k)
    return Stub("counter", {}, {"__getitem__": get, "__setitem__": put, "most_common": common, "update": update, "__len__": lambda it, a, k: len(d)})


def recorded(ctx, prof):
    D, prof = prof, ctx.prog.module("profiling")

    def data(it):
        pd = it.call(D["_ProfilingData"], [], [])
        it.mods[(prof.name, "logger")] = Stub("logger", {}, {n: (lambda it, a, k: None) for n in ("info", "warning")})
        opts(it)
        it.await_(it.spawn(Coro(lambda: it.call(it.attr(pd, "init"), ["t", None], []), "init"), "init"))
        at = outcome(it, "kept under", ("t", "general"), ("u", "general"), "t", ("t", "general", "deeper"))
        on = at in (("t", "general"), "t")
        st, op = attempt(it, lambda: it.call(it.attr(pd, "__getitem__"), [Seq("tuple", list(at)) if isinstance(at, tuple) else at], []))
        it.claim(st == "ok", "recording a value fails")
        if st != "ok":
            return
        call = lambda o, n, *a: it.call(it.attr(o, n), list(a), [])
        for n, a in (("set", ("x", 5)), ("inc", ("y", 2)), ("inc", ("y", 3))):
            st, v = attempt(it, lambda: call(op, n, *a))
            it.claim(st == "ok" and v is None, "recording a value fails")
        st, sub = attempt(it, lambda: call(op, "nest", "z"))
        it.claim(st == "ok" and sub is not None, "nested profiling data fails")
        if st != "ok" or sub is None:
            return
        it.claim(it.truth(call(sub, "empty")), "new profiling data are not empty")
        call(sub, "inc", "w", 1)
        again = call(op, "nest", "z")
        call(again, "inc", "w", 1)
        vals = sorted(map(str, it.parts_of(call(again, "values"))))
        it.claim(vals == (["2"] if on else []) and it.truth(call(again, "empty")) == (not on), "the same nested profiling data are not found again")
        if on:
            st, v = attempt(it, lambda: call(op, "nest", "x"))
            it.claim(st == "raise" and err_is(it, v, "TypeError"), "profiling data replace a value by nested data")
        r = call(pd, "pop", "t")
        it.claim(dget(r, "x") is None or at == "t", "profiling data are recorded elsewhere")
        where = r if at == "t" else dget(r, "general")
        it.claim([dget(where, "x"), dget(where, "y")] == ([5, 5] if on else [None, None]) and (dget(where, "z") is not None) == on, "profiling data read back are not the ones recorded")
        it.claim(call(pd, "pop", "t") is None, "profiling data are given out twice")
    def opts(it):
        it.exts["collections.Counter"] = Native(lambda it, a, k: counter(it), "Counter")
        it.stubs["_ProfilingOptions"] = lambda it, a, k: Stub("options", {"debug_interval_seconds": None, "slow_calls_duration_threshold": 1})
    Sc(ctx, "diagnostics", ctx.method(D["_ProfilingData"], "__getitem__")).run("recording and reading profiles", data)

    f = ctx.method(D["_ProfilingOptions"], "__init__")

    def refused(it):
        desc = D["_ProfilingOptionDescriptor"]
        v = outcome(it, "options", "none", "true", "false", "one", "zero", "unknown", "another type")
        d = {n: it.call(desc, [it.ev(ast.parse(t, mode="eval").body, Env(None, {}, None, None, prof))], [("default", x)]) for n, t, x in (("debug_interval_seconds", "float", None), ("slow_calls_duration_threshold", "int", 1))}
        for n, x in d.items():
            it.call(it.attr(x, "set_name"), [n], [])
        env = outcome(it, "environment", None, "8")
        it.exts["os.environ"] = Dct([("XOSCAR_PROFILING_SLOW_CALLS_DURATION_THRESHOLD", env)] if env else [])
        arg = {"none": None, "true": True, "false": False, "one": Dct([("slow_calls_duration_threshold", "3")]), "zero": Dct([("slow_calls_duration_threshold", 0)]), "unknown": Dct([("no_such", 1)]), "another type": "yes"}[v]
        o = Obj(D["_ProfilingOptions"], {})
        it.clsattrs[(D["_ProfilingOptions"].qual, "__dict__")] = Dct([(n, x) for n, x in d.items()])
        st, e = attempt(it, lambda: it.call(it.attr(o, "__init__"), [arg], []))
        if v in ("unknown", "another type"):
            it.claim(st == "raise" and err_is(it, e, "ValueError"), "unknown profiling options are accepted")
            return
        it.claim(st == "ok", "known profiling options are refused")
        if st != "ok":
            return
        o.attrs["__dict__"] = Dct()
        get = lambda n: it.call(it.attr(d[n], "__get__"), [o, D["_ProfilingOptions"]], [])
        want = {"one": 3, "zero": 0}.get(v, int(env or 1))
        it.claim(get("debug_interval_seconds") is None and get("slow_calls_duration_threshold") == want, "a profiling option has another value than the one given")
        it.claim(it.call(it.attr(d["debug_interval_seconds"], "__get__"), [None, D["_ProfilingOptions"]], []) is d["debug_interval_seconds"], "an option cannot be asked of its class")
    Sc(ctx, "diagnostics", f).run("options of profiling", refused)


def flags(ctx):
    D = ctx.prog.module("debug").defs

    def setting(it):
        mode = outcome(it, "diagnostics", *MODES)
        first = outcome(it, "before", "off", "on")
        switch(it, first)
        o = switch(it, mode)
        it.claim(it.call(D["get_debug_options"], [], []) is o, "the debug options set are not the ones in force")
        core = ctx.prog.module("core")
        for n in ("log_unhandled_errors", "log_cycle_send"):
            v = it.mods.get((core.name, "_" + n), it.globals_value(core, "_" + n) if hasattr(it, "globals_value") else None)
            it.claim(bool(v) == (mode in ("on", "on without limits")), f"actors do not follow the option {n}")
    Sc(ctx, "diagnostics", D["set_debug_options"]).run("setting the options", setting)

    def env(it):
        v = outcome(it, "DEBUG_OSCAR", None, "0", "1", "{}", '{"actor_call_timeout": 5}')
        switch(it, outcome(it, "before", "off", "on"))
        env = Dct([] if v is None else [("DEBUG_OSCAR", v)])
        it.exts["os.environ"] = env
        it.exts["json.loads"] = Native(lambda it, a, k: Dct(list(json.loads(a[0]).items())) if a[0] and a[0][0] == "{" else json.loads(a[0]), "json.loads")
        st, _ = attempt(it, lambda: it.call(D["reload_debug_opts_from_env"], [], []))
        it.claim(st == "ok", "the options given cannot be read")
        if st != "ok":
            return
        got = it.call(D["get_debug_options"], [], [])
        it.claim(got is None or it.attr(got, "actor_call_timeout") == (5 if v and "5" in v else 10), "a debug option has another value than the one given")
        it.claim((got is not None) == (v not in (None, "0")), "diagnostics are on without being asked for, or off in spite of it")
    Sc(ctx, "diagnostics", D["reload_debug_opts_from_env"]).run("reading the environment", env)


def actors(ctx):
    core = ctx.prog.module("core").defs
    base = core["_BaseActor"]

    def receive(it):
        mode = outcome(it, "diagnostics", *MODES)
        switch(it, mode)
        tr, log = Trace(it, V("trace")), Log(it)
        made = watch_tasks(it)
        act = Act(it)
        kind, how, end = outcome(it, "method", "sync", "async"), outcome(it, "call", 0, 1), outcome(it, "the method", *ENDS[:3])
        err = []

        def body(name, a, k):
            if end != "value":
                e = it.excval(Exc(end, ["boom"]))
                err.append(e)
                raise Raised(e)
            return "result"
        act.method("m", kind, body, hint=outcome(it, "lock free", True, False))
        args = Seq("tuple", ["x"]) if how == 0 else Seq("tuple", [Seq("list", [Seq("tuple", ["x"])]), Seq("list", [Dct()])])
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(act.o, "__on_receive__"), [Seq("tuple", ["m", how, args, Dct()])], [])))
        it.claim(len(act.ran) == 1, "the method does not run exactly once")
        if end == "value":
            it.claim(st == "ok" and (it.fz(v) == it.fz("result") or isinstance(v, Seq)), "diagnostics change the result of a method")
        else:
            it.claim(st == "raise" and v is err[0], "diagnostics swallow or replace the error of a method")
        it.spawn(Coro(lambda: nap(it, 3), "later"), "later")
        it.drain()
        it.claim(all(t.done for t in made), "the reporter of timeouts goes on after the method ended")
        if mode == "off":
            it.claim(not log.n and not made and not tr.touched, "diagnostics are at work while they are off")
        else:
            logged = mode != "on without traces" and end == "ValueError"
            it.claim(bool(log.n) == logged or log.n > 0 and end == "value", "an unhandled error is not reported")
    Sc(ctx, "diagnostics", ctx.method(base, "__on_receive__")).run("a method of an actor", receive, max_paths=1500)

    def generator(it):
        mode = outcome(it, "diagnostics", *MODES)
        switch(it, mode)
        first = V("trace of the call")
        tr, log = Trace(it, first), Log(it)
        made = watch_tasks(it)
        act = Act(it)
        seen, outer = [], []
        end, handled = outcome(it, "the generator", *ENDS[:2]), outcome(it, "what it yields", *ENDS[:3])
        on = mode in ("on", "on without limits")
        second = outcome(it, "the generator changes the trace", True, False)

        def see():
            seen.append(tr.v)

        def work():
            outer.append(tr.v)
            it.pause()
            if handled != "value":
                it.raise_(handled)
            return "value"

        def body():
            see()
            if second:
                tr.v = V("another trace")
            st, v = attempt(it, lambda: it.gen_yield(Coro(work, "yielded")))
            see()
            it.claim(st == ("ok" if handled == "value" else "raise"), "the generator does not get the outcome of what it yields")
            if end != "value":
                it.raise_(end)
            exc(it, "Return", "result")
        g = GenObj("user", body, True)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(act.o, "_run_actor_async_generator"), [g], [])))
        it.claim((st == "ok" and it.fz(v) == it.fz("result")) if end == "value" else st == "raise" and err_is(it, v, end), "diagnostics change the outcome of a generator")
        now = V("another trace") if second else first
        it.claim(len(seen) == 2 and it.fz(seen[0]) == it.fz(first) and it.fz(seen[1]) == it.fz(now), "a generator does not find its message trace again after what it yields")
        it.claim(not on or all(x is None for x in outer), "what a generator yields is traced as a call of the actor's own")
        it.claim(on or not tr.touched, "a trace is moved while traces are off")
        it.spawn(Coro(lambda: nap(it, 3), "later"), "later")
        it.drain()
        it.claim(all(t.done for t in made), "the reporter of timeouts goes on after the generator ended")
    Sc(ctx, "diagnostics", ctx.method(base, "_run_actor_async_generator")).run("a generator of an actor", generator, max_paths=1500)


def pools(ctx):
    sub = sub_pool(ctx)

    def serve(it):
        mode = outcome(it, "diagnostics", *MODES)
        it.stubs["traceback.format_tb"] = lambda it, a, k: Seq("list", ["tb"])
        end = outcome(it, "the method", *ENDS[:3])
        tr = []

        def receive(it, o, m):
            tr.append(var.items())
            it.pause()
            if end != "value":
                it.raise_(end)
            return V("result")
        p = make(it, "sub", sub)
        act = actor_class(it, receive=receive)
        ask(it, p, "create_actor", create_msg(it, act, A, SUB1))
        switch(it, mode)
        var, log = Trace(it), Log(it)
        made = watch_tasks(it)
        there = outcome(it, "actor", "there", "gone")
        if there == "gone":
            p.attrs["_actors"].items.clear()
        kind = outcome(it, "message", "SendMessage", "TellMessage")
        given = Seq("list", [entry(it, B)])
        m = send_message(it, A, SUB1, given, kind)
        sent = []
        ch = Stub("channel", {"closed": False}, {"send": lambda it, a, k: Coro(lambda: sent.append(a[0]), "send")})
        if not items_of(p.attrs["_message_handler"] if "_message_handler" in p.attrs else Dct()):
            from .replies import register
            register(it, p.cls)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(p, "process_message"), [m, ch], [])))
        it.spawn(Coro(lambda: nap(it, 4), "later"), "later")
        it.drain()
        it.claim(st == "ok" and len(sent) == 1, "diagnostics change how often a request is answered")
        if sent:
            ok = there == "there" and (end == "value" or kind == "TellMessage")
            it.claim(is_msg(sent[0], "ResultMessage") == ok, "diagnostics change the answer of a request")
            if ok and kind == "SendMessage":
                it.claim(it.fz(sent[0].attrs["result"]) == it.fz(V("result")), "diagnostics change the result of a call")
            if not ok:
                it.claim(err_is(it, sent[0], "ActorNotExist" if there == "gone" else end), "diagnostics change the error of a call")
        on = mode in ("on", "on without limits")
        if there == "there" and kind == "SendMessage":
            it.claim(tr == [((B, MAIN, "method"), (A, SUB1, "method")) if on else None], "the trace of the running call is not the one of its message followed by the call")
        it.claim(len(items(given)) == 1, "recording a trace changes the message")
        it.claim(not var.v, "the trace of a call outlives it")
        it.claim(all(t.done for t in made), "the reporter of timeouts goes on after the request is answered")
    Sc(ctx, "diagnostics", ctx.method(sub, "process_message")).run("serving a request", serve, max_paths=1500)


def calls(ctx, prof):
    cs, pd = prof["_CallStats"], prof["_ProfilingData"]

    def options(it, every=None):
        """the options of a profiled task as given"""
        m = ctx.prog.module("profiling")
        o = Stub("options", {"debug_interval_seconds": every, "slow_calls_duration_threshold": 1})
        it.mods[(m.name, "_ProfilingOptions")] = Native(lambda it, a, k: o, "_ProfilingOptions")

    def cmp_heap(it):
        """ordering the slow calls compares their arguments when everything else is equal"""
        def op(name):
            def f(it, a, k):
                o = outcome(it, f"{name} of slow calls", "ok", "TypeError", "ValueError")
                if o != "ok":
                    it.raise_(o)
                if name == "heappush":
                    it.call(it.attr(a[0], "append"), [a[1]], [])
            it.exts[f"heapq.{name}"] = Native(f, name)
        for n in ("heappush", "heapreplace", "heappushpop"):
            op(n)
        it.exts["collections.Counter"] = Native(lambda it, a, k: counter(it), "Counter")

    def collecting(it):
        cmp_heap(it)
        Log(it)
        options(it)
        tasks = outcome(it, "tasks profiled", 0, 1, 2)
        data = it.call(pd, [], [])
        for n in range(tasks):
            it.call(it.attr(data, "init"), [f"t{n}"], [])
        kind = outcome(it, "message", "SendMessage", "TellMessage", "CreateActorMessage")
        uid = outcome(it, "id", b"name", b"\xff\xfe")
        m = send_message(it, uid, cls=kind) if kind != "CreateActorMessage" else create_msg(it, actor_class(it), A, MAIN)
        before = it.fz(m)
        slow = outcome(it, "the call", "fast", "slow")
        calls = outcome(it, "calls", 1, 2)
        for _ in range(calls):
            st, v = attempt(it, lambda: it.call(it.attr(data, "collect_actor_call"), [m, 5 if slow == "slow" else 0], []))
            it.claim(st == "ok", "profiling fails the call it measures")
        it.claim(it.fz(m) == before, "profiling changes the message it measures")
        for n in range(tasks):
            st, r = attempt(it, lambda: it.call(it.attr(data, "pop"), [f"t{n}"], []))
            it.claim(st == "ok", "the profiling data of a task cannot be read")
            if st != "ok":
                return
            most = dget(r, "most_calls")
            got = [v for _, v in items_of(most)]
            it.claim(got == ([calls] if kind != "CreateActorMessage" else []), "the calls of actors are not counted once each in every profiled task")
            it.claim(it.call(it.attr(data, "pop"), [f"t{n}"], []) is None, "a task is profiled after its end")
        it.claim(not items_of(data.attrs["_data"]) and not items_of(data.attrs["_call_stats"]), "a task is profiled after its end")
    Sc(ctx, "diagnostics", ctx.method(cs, "collect")).run("profiling calls", collecting, max_paths=3000)

    def slowest(it):
        Log(it)
        options(it)
        it.exts["collections.Counter"] = Native(lambda it, a, k: counter(it), "Counter")
        low = lambda h: min(range(len(h.parts)), key=lambda i: h.parts[i].parts[0])  # noqa: E731

        def push(it, a, k):
            a[0].parts.append(a[1])

        def replace(it, a, k):
            r = a[0].parts.pop(low(a[0]))
            a[0].parts.append(a[1])
            return r

        def pushpop(it, a, k):
            if not a[0].parts or a[1].parts[0] < a[0].parts[low(a[0])].parts[0]:
                return a[1]
            return replace(it, a, k)
        for n, f in (("heappush", push), ("heapreplace", replace), ("heappushpop", pushpop), ("heappop", lambda it, a, k: a[0].parts.pop(low(a[0]))), ("heapify", lambda it, a, k: None)):
            it.exts["heapq." + n] = Native(f, n)
        for n, sg in (("nlargest", -1), ("nsmallest", 1)):
            it.exts["heapq." + n] = Native(lambda it, a, k, sg=sg: Seq("list", sorted(it.iterate(a[1]), key=lambda p: sg * p.parts[0])[: a[0]]), n)
        data = it.call(pd, [], [])
        it.call(it.attr(data, "init"), ["t"], [])
        many = outcome(it, "slow calls", 3, 10, 12)
        times = [2, 5, 3, 8, 9, 11, 4, 7, 1, 6, 10, 12][:many]
        for i, t in enumerate(times + [0, 0.5]):
            m = send_message(it, A if i % 2 else b"\xff")
            m.attrs["content"] = Seq("tuple", ["go" if i < many else "quick", 0, Seq("tuple", [f"<{i}>"]), Dct()])
            it.call(it.attr(data, "collect_actor_call"), [m, t], [])
        st, r = attempt(it, lambda: it.call(it.attr(data, "pop"), ["t"], []))
        it.claim(st == "ok", "the profiling data of a task cannot be read")
        if st != "ok":
            return
        most = dict(items_of(dget(r, "most_calls")))
        e, o = (many + 1) // 2, many // 2
        it.claim(sorted(most.values()) == sorted([e, o, 1, 1]) and all("go" in repr(n) or "quick" in repr(n) for n in most), "the calls of a method are not counted together, or not by their method")
        slow = list(items_of(dget(r, "slow_calls")))
        it.claim(len(slow) <= 10, "the slow calls kept grow without limit")
        it.claim(many > 10 or sorted(t for _, t in slow) == sorted(times), "the slow calls are not those that took long")
        it.claim(all(t in times and f"<{times.index(t)}>" in repr(n) and "go" in repr(n) for n, t in slow), "a slow call is told with the time of another call")
    Sc(ctx, "diagnostics", ctx.method(cs, "collect")).run("the slowest calls", slowest)

    def shared(it):
        Log(it)
        it.clsattrs[(pd.qual, "_instance")] = None
        a, b = (it.call(prof["get_profiling_data"], [], []) for _ in range(2))
        it.claim(a is b, "what is recorded in one place cannot be read in another")
        n = it.call(pd, [], [])
        it.call(it.attr(pd, "set_instance"), [n], [])
        it.claim(it.call(prof["get_profiling_data"], [], []) is n, "the profiling data set are not those in use")
    Sc(ctx, "diagnostics", prof["get_profiling_data"]).run("the profiling data in use", shared)

    def reporter(it):
        cmp_heap(it)
        Log(it)
        it.exts["json.dumps"] = Native(lambda it, a, k: fails(it), "json.dumps")
        made = watch_tasks(it)

        def fails(it):
            o = outcome(it, "writing the report", "ok", "TypeError")
            if o != "ok":
                it.raise_(o)
            return "report"
        data = it.call(pd, [], [])
        every = outcome(it, "interval", None, 1)
        options(it, every)
        it.call(it.attr(data, "init"), ["t", Dct()], [])
        it.claim(bool(made) == (every is not None), "profiling reports without being asked to")
        it.spawn(Coro(lambda: nap(it, outcome(it, "time", 1, 4)), "later"), "later")
        it.drain()
        it.claim(all(not t.done for t in made[:1]), "a failed report ends the reports")
        other = len(made)
        if every is not None:
            it.call(it.attr(data, "init"), ["u", Dct()], [])
        it.call(it.attr(data, "pop"), ["t"], [])
        it.drain()
        it.claim(all(t.done for t in made[:other]), "the reports go on after the end of the task")
        it.claim(not any(t.done for t in made[other:]), "the reports of a task end with another task")
        it.call(it.attr(data, "pop"), ["u"], [])
        it.drain()
        it.claim(all(t.done for t in made), "the reports go on after the end of the task")
        it.claim(not items_of(data.attrs["_debug_task"]), "a task is profiled after its end")
    Sc(ctx, "diagnostics", ctx.method(pd, "init")).run("reporting profiles", reporter, max_paths=1500)

    caller = ctx.prog.module("backends.core").defs["ActorCallerThreadLocal"]

    def calling(it):
        it.stubs["profiling.get_profiling_data"] = lambda it, a, k: data
        got = []
        data = Stub("profiling", {}, {"collect_actor_call": lambda it, a, k: got.append(a)})
        o = Obj(caller, {"_clients": Dct(), "_client_to_message_futures": Dct(), "_profiling_data": data})
        fail = outcome(it, "sending", "ok", "ConnectionError", "ValueError")
        m = send_message(it)
        wait = outcome(it, "answer awaited", True, False)

        def send(it, a, k):
            def run():
                it.pause()
                if fail != "ok":
                    it.raise_(fail)
            return Coro(run, "send")
        c = Stub("client", {"dest_address": MAIN}, {"send": send, "close": lambda it, a, k: Coro(lambda: None, "close")})
        futs = Dct()
        it.setitem(o.attrs["_client_to_message_futures"], c, futs)
        t = it.spawn(it.call(it.attr(o, "call_with_client"), [c, m, wait], []), "call")
        it.drain()
        f = dget(futs, m.attrs["message_id"])
        r = V("answer")
        if fail == "ok" and wait:
            it.claim(not t.done, "a call ends before its answer is there")
            f.set("done", r) if hasattr(f, "set") else it.call(it.attr(f, "set_result"), [r], [])
            it.drain()
        st, v = attempt(it, lambda: it.await_(t))
        if fail == "ok":
            it.claim(st == "ok" and (v is f if not wait else v is r), "profiling changes the answer of a call")
            it.claim(len(got) == 1 and got[0][0] is m, "a call is not profiled exactly once")
        else:
            it.claim(st == "raise" and err_is(it, v, "ServerClosed" if fail == "ConnectionError" else fail), "profiling changes the error of a call")
    Sc(ctx, "diagnostics", ctx.method(caller, "call_with_client")).run("profiling a call", calling)


def sends(ctx):
    cls = ctx.prog.module("backends.context").defs["IndigenActorContext"]

    def send(it):
        from .client import Client
        mode = outcome(it, "diagnostics", *MODES)
        answer, wait = outcome(it, "answer", "result", "error", "sending fails"), outcome(it, "answer awaited", True, False)
        cell = []

        def reply(d):
            if answer == "sending fails":
                it.raise_("ServerClosed")
            return None
        c = Client(it, reply)
        cell.append(c)
        switch(it, mode)
        running = Seq("list", [entry(it, A, SUB1), entry(it, B)])
        tr, log = Trace(it, running), Log(it)
        made = watch_tasks(it)
        content = Seq("tuple", ["m", 0, Seq("tuple", ["a"]), Dct()])
        main = it.spawn(it.call(it.attr(c.ctx, "send"), [ref(it, SUB1, A), content], [("wait_response", wait)]), "send")
        made[:] = [t for t in made if t is not main]
        it.drain()
        it.claim(len(c.sent) == 1, "diagnostics change how often a call is sent")
        if len(c.sent) != 1:
            return
        m = c.sent[0]["message"]
        on = mode in ("on", "on without limits") and wait
        it.claim(it.fz(m.attrs["content"]) == it.fz(content), "diagnostics change the call sent")
        it.claim(len(items(m.attrs["message_trace"])) == (2 if on else 0), "a call carries another trace than the one of the call that sends it")
        it.claim(tr.v is running and len(items(running)) == 2, "sending a call changes the trace of the running call")
        if answer != "sending fails":
            it.claim(main.done != wait, "diagnostics change when a call ends")
            c.reply(c.sent[0], c.ok(c.sent[0], "value") if answer == "result" else c.err(c.sent[0], "ActorNotExist"))
            it.drain()
        st, v = attempt(it, lambda: it.await_(main))
        if answer == "sending fails":
            it.claim(st == "raise" and err_is(it, v, "ServerClosed"), "diagnostics change the error of a call")
        elif wait and answer == "error":
            it.claim(st == "raise" and err_is(it, v, "ActorNotExist"), "diagnostics change the error of a call")
        else:
            it.claim(st == "ok" and (v == "value" or not wait), "diagnostics change the result of a call")
        it.drain()
        it.claim(all(t.done for t in made), "the reporter of timeouts goes on after the call ended")
    Sc(ctx, "diagnostics", ctx.method(cls, "send")).run("sending a call", send)

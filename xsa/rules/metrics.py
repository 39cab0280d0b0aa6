"""C23: metrics report what was recorded, by abstract interpretation of every metric type over every backend, created
before or after the initialisation, with a clock the scenario sets."""
import itertools

from .contexts import V
from .records import *

KINDS = ("counter", "gauge", "meter", "histogram")
BACKENDS = ("console", "prometheus")


class Lab:
    """The metric API over a backend that notes what reaches it."""

    def __init__(self, it, prog):
        self.it, self.prog = it, prog
        self.m = prog.module("metrics.api")
        self.d = self.m.defs
        self.now, self.made, self.seen = 100.0, [], []
        it.exts["time.time"] = Native(lambda it, a, k: self.now, "time.time")
        it.exts["os.getpid"] = Native(lambda it, a, k: 77, "getpid")
        it.exts["socket.gethostname"] = Native(lambda it, a, k: "host", "gethostname")
        it.stubs.pop("init_metrics", None)
        quiet = lambda it, a, k: None  # noqa: E731
        it.mods[(self.m.name, "logger")] = Stub("logger", {}, {n: quiet for n in ("debug", "info", "warning", "error", "exception")})
        it.mods[(self.m.name, "_metrics_to_be_initialized")] = Seq("set", [])

        def simple(it, a, k):
            o = Stub(f"console metric {len(self.made)}", {"value": 0})

            def update(it, a, k):
                k = dict(k)
                v, t = (list(a) + [k.get("value", 1.0), k.get("tags")][len(a):])[:2]
                o.attrs["value"] = v
                self.seen.append((o, v, self.tags(t)))
            o.methods["update"] = update
            self.made.append((o, "console", self.three(a, k)))
            return o
        it.stubs["console_metric.SimpleMetric"] = simple

        def gauge(it, a, k):
            o = Stub(f"prometheus metric {len(self.made)}")

            def labels(it, a, k):
                from ..world import flat_args
                pos, kw = flat_args(it, a, k)
                return Stub("labelled", {}, {"set": lambda it, a, k: self.seen.append((o, a[0], dict(kw)))})
            o.methods["labels"] = labels
            self.made.append((o, "prometheus", self.three(a, k)))
            return o
        it.mods[(prog.module("metrics.backends.prometheus.prometheus_metric").name, "pc")] = Stub("prometheus_client", {}, {"Gauge": gauge})
        self.served = []
        it.exts["prometheus_client.start_http_server"] = Native(lambda it, a, k: self.served.append(a[0] if a else dict(k).get("port")), "start_http_server")
        it.stubs["utils.get_next_port"] = lambda it, a, k: 4242

    def three(self, a, k):
        k = dict(k)
        names = (("name",), ("description", "documentation"), ("tag_keys", "labelnames"))
        got = list(a) + [next((k[n] for n in ns if n in k), None) for ns in names[len(a):]]
        return got[0], got[1], tuple(self.it.iterate(got[2])) if got[2] is not None else ()

    def tags(self, t):
        return dict(items_of(t)) if isinstance(t, Dct) else t

    def create(self, kind, keys=("k",), name="a.b"):
        f = self.it.attr(self.d["Metrics"], kind)
        return self.it.call(f, [name, "what it is", Seq("tuple", list(keys)) if keys is not None else None], [])

    def init(self, *a):
        return attempt(self.it, lambda: self.it.call(self.d["init_metrics"], list(a), []))

    def record(self, m, v, tags):
        """records; what reached the backend"""
        t = None if tags is None else Dct(list(tags.items()))
        n = len(self.seen)
        st, x = attempt(self.it, lambda: self.it.call(self.it.attr(m, "record"), [v, t], []))
        self.it.claim(st == "ok", "recording fails")
        self.it.claim(t is None or dict(items_of(t)) == tags, "recording changes the tags of the caller")
        return self.seen[n:]


def extra(backend):
    return {"host": "host", "pid": 77} if backend == "prometheus" else {}


def metrics(ctx: Ctx):
    D = ctx.prog.module("metrics.api").defs
    fi, fp = D["init_metrics"], ctx.method(D["Percentile"], "record_data")

    def recording(it):
        lab = Lab(it, ctx.prog)
        backend, kind = outcome(it, "backend", *BACKENDS), outcome(it, "metric", *KINDS)
        when = outcome(it, "created", "before", "after")
        tags = {"none": None, "one": {"k": "v"}}[outcome(it, "tags", "none", "one")]
        keys = outcome(it, "tag keys", None, 1) and ("k",)
        if when == "after":
            lab.init(backend)
        m = lab.create(kind, keys)
        if when == "before":
            it.claim(not lab.record(m, 7, tags) and not lab.made, "a metric that is not initialised reports")
            lab.init(backend)
        it.claim(len(lab.made) == 1 and lab.made[0][1] == backend, "a metric is not made once by the backend asked for")
        if len(lab.made) != 1:
            return
        o, _, (name, desc, got) = lab.made[0]
        it.claim(name == ("a:b" if backend == "prometheus" else "a.b") and desc == "what it is", "a metric is made with another name or description")
        it.claim(got == (keys or ()) + tuple(extra(backend)), "a metric is made with other tag keys")
        steps = [(5, 0), (2, 0.5), (4, 1), (3, 0.25), (1, 2)]
        if outcome(it, "many in an interval", False, True):
            it.mods[(ctx.prog.module("metrics.backends.metric").name, "_THRESHOLD")] = 2
            steps = [(1, 0.25), (3000, 0.25), (2500, 0.25), (1, 0.125), (4000, 0.25), (3, 1)]
        if outcome(it, "the clock stands", False, True):
            steps = [(5, 0), (2, 0), (4, 0)]
        total, pend, last = 0, [], lab.now
        for v, dt in steps:
            lab.now += dt
            total += v
            pend.append(v)
            got = lab.record(m, v, tags)
            if kind == "counter":
                want = total
            elif kind == "gauge":
                want = v
            elif kind == "meter":
                want = sum(pend) / max(lab.now - last, 1e-9)
            else:
                want = sum(pend) / len(pend)
            due = kind in KINDS[:2] or lab.now - last >= 1
            it.claim(len(got) == 1 if due else len(got) <= 1, "what is recorded does not reach the backend once")
            for x, value, t in got:
                it.claim(x is o and value == want, {"counter": "a counter does not report the sum of what was recorded", "gauge": "a gauge does not report the last value", "meter": "a meter does not report the rate since its last report", "histogram": "a histogram does not report the average since its last report"}[kind])
                it.claim((t or {}) == {**(tags or {}), **extra(backend)}, "what is recorded is reported under other tags")
                pend, last = [], lab.now
            if due and backend == "console":
                it.claim(it.attr(m, "value") == want, "the value of a metric is not the one reported last")
    Sc(ctx, "metrics", ctx.method(ctx.prog.module("metrics.backends.metric").defs["AbstractMetric"], "record")).run("recording", recording, max_paths=3000)

    def simple(it):
        quiet = lambda it, a, k: None  # noqa: E731
        m = ctx.prog.module("metrics.backends.console.console_metric")
        it.mods[(m.name, "logger")] = Stub("logger", {}, {n: quiet for n in ("debug", "info", "warning")})
        o = it.call(m.defs["SimpleMetric"], ["n", "d", None], [])
        for v in (3, 2, 0):
            it.call(it.attr(o, "update"), [v, None], [])
            it.claim(it.attr(o, "value") == v, "the value of a metric is not the one reported last")
    Sc(ctx, "metrics", ctx.method(ctx.prog.module("metrics.backends.console.console_metric").defs["SimpleMetric"], "update")).run("the value of a metric", simple)

    def apart(it):
        """two metrics, and the same metric under two tags, do not mix"""
        lab = Lab(it, ctx.prog)
        backend, kind = outcome(it, "backend", *BACKENDS), outcome(it, "metric", *KINDS)
        when = outcome(it, "first created", "before", "after")
        first = lab.create(kind) if when == "before" else None
        lab.init(backend)
        first = first or lab.create(kind)
        second = lab.create(kind, name="other")
        it.claim(len(lab.made) == 2, "a metric is not made once by the backend asked for")
        if len(lab.made) != 2:
            return
        for m, v in ((first, 1), (second, 100)):
            lab.record(m, v, None)
        lab.now += 2
        for m, o, w, v, k in ((first, 0, 1, 5, {"k": "v"}), (second, 1, 100, 9, {"k": "w"}), (first, 0, None, 3, None)):
            if w is None:
                lab.now += 2
            got = lab.record(m, v, k)
            it.claim(len(got) == 1 and got[0][0] is lab.made[o][0], "what is recorded in one metric reaches another")
            if got:
                want = {"counter": 9 if w is None else v + w, "gauge": v, "meter": (v + (w or 0)) / 2, "histogram": v if w is None else (v + w) / 2}[kind]
                it.claim(got[0][1] == want, "what is recorded in one metric counts in another")
                it.claim((got[0][2] or {}) == {**(k or {}), **extra(backend)}, "what is recorded is reported under other tags")
    Sc(ctx, "metrics", ctx.method(D["Metrics"], "counter")).run("two metrics", apart, max_paths=1500)

    def init(it):
        lab = Lab(it, ctx.prog)
        first = outcome(it, "first", "console", "prometheus", None, "unknown")
        second = outcome(it, "second", "console", "prometheus")
        between = outcome(it, "between", "nothing", "shutdown")
        m = lab.create("gauge")
        st, v = lab.init(first)
        if first == "unknown":
            it.claim(st == "raise" and err_is(it, v, "NotImplementedError"), "an unknown backend is accepted")
            it.claim(not lab.made and not lab.record(m, 1, None), "an initialisation that fails has an effect")
            late = lab.create("gauge", name="late")
            it.claim(not lab.made, "an initialisation that fails has an effect")
            st, v = lab.init(second)
            it.claim(st == "ok" and [x[1] for x in lab.made] == [second, second], "metrics cannot be initialised after an initialisation that failed")
            it.claim(len(lab.record(late, 1, None)) == 1, "a metric created before the initialisation does not report after it")
            return
        it.claim(st == "ok" and [x[1] for x in lab.made] == [first or "console"], "a metric is not made once by the backend asked for")
        if between == "shutdown":
            it.call(D["shutdown_metrics"], [], [])
            n = len(lab.made)
            late = lab.create("gauge", name="late")
            it.claim(len(lab.made) == n, "a metric is made by a backend that is shut down")
            lab.init(second)
            it.claim(set(x[1] for x in lab.made[n:]) == {second}, "metrics are not made by the backend initialised last")
            got = lab.record(late, 3, None)
            it.claim(len(got) == 1 and got[0][0] in [x[0] for x in lab.made[n:]], "a metric created before the initialisation does not report after it")
        else:
            lab.record(m, 4, None)
            st, v = lab.init(second)
            it.claim(st == "ok" and len(lab.made) == 1, "initialising metrics twice makes them twice")
            got = lab.record(m, 3, None)
            it.claim(len(got) == 1 and got[0][0] is lab.made[0][0], "initialising metrics twice changes where they report")
            lab.create("gauge", name="late")
            it.claim([x[1] for x in lab.made] == [first or "console"] * 2, "initialising metrics twice changes their backend")
    Sc(ctx, "metrics", fi).run("initialising", init, max_paths=1500)

    def port(it):
        lab = Lab(it, ctx.prog)
        backend, conf = outcome(it, "backend", *BACKENDS), outcome(it, "port", None, "not given", 0, 9000)
        cfg = None if conf is None else Dct([("other", 1)] if conf == "not given" else [("port", conf)])
        st, v = lab.init(backend, cfg)
        it.claim(st == "ok", "metrics cannot be initialised")
        it.claim(lab.served == ([] if backend == "console" else [9000 if conf == 9000 else 4242]), "the metrics are not served on the port asked for")
    Sc(ctx, "metrics", fi).run("the port of the metrics", port)

    def percentile(it):
        heaps(it)
        got = []
        cb = Native(lambda it, a, k: got.append(a[0]), "callback")
        size, window = outcome(it, "values kept", 1, 2, 3), 3
        perms = list(itertools.permutations((1.5, 2.5, 4.0))) + [(2, 2, 1), (3, 1, 3), (0, 0, 0), (-1, -2, -3)]
        a, b = perms[outcome(it, "values", *range(len(perms)))], outcome(it, "then", (5, 6, 7), (0.5, 0.25, 0.75))
        p = it.call(D["Percentile"], [size, window, cb], [])
        for n, v in enumerate((*a, *b), 1):
            it.call(it.attr(p, "record_data"), [v], [])
            it.claim(len(got) == n // window, "a percentile is not reported once per window")
        want = [sorted(x)[size - 1] for x in (a, b)]
        it.claim(got == want, "a percentile is not the value of its rank in its window")
    Sc(ctx, "metrics", fp).run("percentiles", percentile, max_paths=1500)

    def built(it):
        heaps(it)
        got = []
        cb = Native(lambda it, a, k: got.append(a[0]), "callback")
        name, window, keep = [("p99", 100, 1), ("p99", 20, 0), ("p95", 20, 1), ("p95", 40, 2), ("p90", 20, 2), ("p90", 5, 0)][outcome(it, "percentile", *range(6))]
        st, p = attempt(it, lambda: it.call(it.attr(D["Percentile"], "build_" + name), [cb, window], []))
        it.claim((st == "ok") == (keep > 0), "a window too small for its percentile is accepted, or one that is not is refused")
        if st != "ok":
            return
        for n in range(window):
            it.call(it.attr(p, "record_data"), [window - n], [])
            it.claim(len(got) == (n == window - 1), "a percentile is not reported once per window")
        it.claim(got == [keep], "a percentile is not the value of its rank in its window")
    Sc(ctx, "metrics", ctx.method(D["Percentile"], "build_p99")).run("the percentile asked for", built)

    def kinds(it):
        heaps(it)
        which, window = outcome(it, "percentile", "P99", "P95", "P90"), outcome(it, "window", 10, 20, 100)
        keep = int(window * {"P99": 0.01, "P95": 0.05, "P90": 0.1}[which])
        t = it.attr(it.attr(D["Percentile"], "PercentileType"), which)
        arg = it.call(D["PercentileArg"], [t, Native(lambda it, a, k: None, "callback"), window], [])
        from .diagnostics import within
        it.exts["time.time"] = Native(lambda it, a, k: 1, "time.time")
        st, v = attempt(it, lambda: within(it, it.call(D["record_time_cost_percentile"], [Seq("list", [arg])], []), lambda: None))
        it.claim((st == "ok") == (keep > 0), "the percentile recorded is not the one asked for")
    Sc(ctx, "metrics", D["record_time_cost_percentile"]).run("the kind of percentile", kinds)


def heaps(it):
    """queue.PriorityQueue of known values"""
    def make(it, a, k):
        xs = []

        def get(it, a, k):
            if not xs:
                it.raise_("Empty")
            xs.sort()
            return xs.pop(0)
        put = lambda it, a, k: xs.append(a[0])  # noqa: E731
        return Stub("priority queue", {"queue": xs}, {"put": put, "put_nowait": put, "get": get, "get_nowait": get, "qsize": lambda it, a, k: len(xs), "empty": lambda it, a, k: not xs, "full": lambda it, a, k: False})
    it.exts["queue.PriorityQueue"] = Native(make, "PriorityQueue")

"""C15: start, supervision and termination of sub pool processes, by abstract interpretation of both sides of the start
protocol with every outcome of every process, shared memory and psutil operation, and every moment of cancellation."""
import struct

from .lifecycle import *
from ..shapes import Bound

ADDR = Seq("list", [SUB1])


class Child:
    """An asyncio subprocess: exits on its own, on SIGTERM, on SIGKILL, or never."""
    n = 0

    def __init__(self, it, label="proc", on_term="exits", ignores_kill=False):
        self.it, self.label, self.signals, self.on_term, self.ignores_kill = it, label, [], on_term, ignores_kill
        self.waited = False
        Child.n += 1
        self.stub = Stub(label, {"returncode": None, "pid": 7000 + Child.n}, {
            "terminate": lambda it, a, k: self.signal("TERM"), "kill": lambda it, a, k: self.signal("KILL"),
            "send_signal": lambda it, a, k: self.signal("KILL" if "KILL" in repr(a[0]) or a[0] == 9 else "TERM"),
            "wait": lambda it, a, k: Coro(self.wait, "wait")})

    @property
    def dead(self):
        return self.stub.attrs["returncode"] is not None

    def exit(self, code=1):
        if not self.dead:
            self.stub.attrs["returncode"] = code

    def signal(self, s):
        if self.dead:
            self.it.raise_("ProcessLookupError")
        self.signals.append(s)
        if self.on_term == "gone":
            self.exit(0)
            self.it.raise_("ProcessLookupError")
        if s == "KILL" and not self.ignores_kill:
            self.exit(-9)
        if s == "TERM" and self.on_term == "exits":
            self.exit(-15)
        if s == "TERM" and self.on_term == "later":
            def late():
                self.it.await_(self.it.call(("ext", "asyncio.sleep"), [1], []))
                self.exit(-15)
            self.it.spawn(Coro(late, "exit"), "exit")

    def wait(self):
        self.waited = True
        if not self.dead:
            self.it.block(lambda: self.dead)
        self.it.raise_injected()
        return self.stub.attrs["returncode"]


class Shm:
    """A shared memory block: what is stored in it, by region; `spy` is called after every store."""

    def __init__(self, it, name="shm1"):
        self.it, self.mem, self.state, self.spy = it, [0] * 10240, [], None
        self.buf = Stub("buf", {}, {"__setitem__": self.set, "__getitem__": self.get, "release": lambda it, a, k: None, "__len__": lambda it, a, k: 10240, "__bool__": lambda it, a, k: True})
        self.stub = Stub(name, {"name": name, "buf": self.buf, "size": 10240}, {"close": self.close, "unlink": self.unlink, "__bool__": lambda it, a, k: True})
        for n in ("pack", "unpack", "pack_into", "unpack_from", "calcsize"):
            it.stubs["struct." + n] = getattr(self, n)
        it.stubs["pickle.dumps"] = lambda it, a, k: self.cells([("pickled", a[0], i, self.size) for i in range(self.size)])
        it.stubs["pickle.loads"] = lambda it, a, k: self.load(a[0])
        self.size = 100

    def cells(self, cs):
        """bytes, some of which are those of a pickled object"""
        if all(isinstance(c, int) for c in cs):
            return bytes(cs)
        return Stub("bytes", {"cells": cs}, {"__len__": lambda it, a, k: len(cs), "__getitem__": lambda it, a, k: self.cells(cs[self.span(a[-1], len(cs))]), "tobytes": lambda it, a, k: self.cells(cs), "release": lambda it, a, k: None})

    def raw(self, v):
        if v is self.buf:
            return self.mem
        if isinstance(v, (bytes, bytearray)):
            return list(v)
        if isinstance(v, Stub) and v.label == "bytes":
            return v.attrs["cells"]
        self.it.raise_("TypeError")

    def span(self, s, n):
        if isinstance(s, int):
            return slice(s, s + 1)
        return slice(*slice(s.a, s.b).indices(n)[:2])

    def value(self, x):
        return x if isinstance(x, int) else self.it.attr(x, "value")

    def pack(self, it, a, k):
        return struct.pack(a[0], *[self.value(x) for x in a[1:]])

    def unpack(self, it, a, k):
        cs = self.raw(a[1])
        if len(cs) != struct.calcsize(a[0]):
            it.raise_("error")
        return self.unpack_from(it, [a[0], a[1], 0], [])

    def calcsize(self, it, a, k):
        return struct.calcsize(a[0])

    def unpack_from(self, it, a, k):
        at = a[2] if len(a) > 2 else dict(k).get("offset", 0)
        cs = self.raw(a[1])[at:at + struct.calcsize(a[0])]
        return Seq("tuple", list(struct.unpack(a[0], bytes(c if isinstance(c, int) else 171 for c in cs))))

    def pack_into(self, it, a, k):
        n = struct.calcsize(a[0])
        self.store(a[2], n, struct.pack(a[0], *[self.value(x) for x in a[3:]]))

    def load(self, v):
        cs = self.raw(v)
        n = cs[0][3] if cs and isinstance(cs[0], tuple) else 0
        if not n or cs[:n] != [("pickled", cs[0][1], i, n) for i in range(n)]:
            self.it.raise_("UnpicklingError")
        return cs[0][1]

    def store(self, at, n, v):
        if "close" in self.state:
            self.it.raise_("TypeError")
        cs = self.raw(v)
        if len(cs) != n:
            self.it.raise_("ValueError")
        self.mem[at:at + n] = cs
        if self.spy:
            self.spy()

    def set(self, it, a, k):
        sl = self.span(a[-2], len(self.mem))
        self.store(sl.start, max(sl.stop - sl.start, 0), bytes([a[-1]]) if isinstance(a[-1], int) and isinstance(a[-2], int) else a[-1])

    def get(self, it, a, k):
        if "close" in self.state:
            it.raise_("TypeError")
        if isinstance(a[-1], int):
            return self.mem[a[-1]]
        return self.cells(self.mem[self.span(a[-1], len(self.mem))])

    def close(self, it, a, k):
        self.state.append("close")
        self.stub.attrs["buf"] = None
        if self.close_fails:
            it.raise_("BufferError")

    close_fails = False

    def unlink(self, it, a, k):
        self.state.append("unlink")


def processes(ctx: Ctx):
    mod = ctx.prog.module("backends.indigen.pool")
    main = main_pool(ctx)
    _protocol(ctx, mod)
    _start(ctx, mod, main)
    _ready(ctx, main)
    _create(ctx, main)
    _kill(ctx, main)
    _child(ctx, mod, main)
    _watch(ctx)
    _spawn(ctx)
    _block(ctx)


def _protocol(ctx, mod):
    put = mod.defs["_shm_put_object"]
    run = Sc(ctx, "shared-memory-protocol", put).run

    def store(it):
        sm = Shm(it)
        seqs = mod.defs["_ShmSeq"]
        first, second = it.attr(seqs, "INIT_PARAMS"), it.attr(seqs, "INIT_RESULT")
        it.claim(it.fz(first) != it.fz(second) and first != 0 and second != 0, "the sequence numbers are not distinct from each other and from fresh memory")
        o, o2 = Stub("params"), Stub("result")
        get = mod.defs["_shm_get_object"]
        stage = []

        def reader():
            # the parameters are read by the one who stores the result
            for seq, v in ((second, o2),) if stage else ((first, o), (second, o2)):
                st, r = attempt(it, lambda: it.call(get, [seq, sm.stub], []))
                it.claim(st == "ok" and (r is None or r is v), "a reader can see a part of an object, or another object, while it is stored")
        reader()
        sm.spy = reader
        it.call(put, [first, sm.stub, o], [])
        it.claim(it.call(get, [first, sm.stub], []) is o and it.call(get, [second, sm.stub], []) is None, "the stored parameters are not those that are read")
        stage.append(1)
        big = outcome(it, "size of the result", "small", "large", "fits exactly", "too large")
        sm.size = {"small": 50, "large": 5000, "fits exactly": 10231, "too large": 10241}[big]
        st, r = attempt(it, lambda: it.call(put, [second, sm.stub, o2], []))
        if big == "too large":
            it.claim(st == "raise", "an object larger than the block is stored")
        else:
            it.claim(st == "ok" and it.call(get, [second, sm.stub], []) is o2 and it.call(get, [first, sm.stub], []) is None, "the stored result is not what is read")
    run("an object is stored while the other side polls", store)


def _start(ctx, mod, main):
    f = ctx.prog.method(main, "start_sub_pool")
    run = Sc(ctx, "failed-start-leaves-nothing", f).run

    def start(it):
        sm = Shm(it)
        made = []

        def new(it, a, k):
            d = dict(k)
            it.claim(d.get("create") is True, "the block is not created")
            made.append(sm)
            return sm.stub
        it.stubs["shared_memory.SharedMemory"] = new
        it.stubs["os.getenv"] = lambda it, a, k: outcome(it, "XOSCAR_CPU_AFFINITY", None, "1") if a[0] == "XOSCAR_CPU_AFFINITY" else None
        it.stubs["multiprocessing.cpu_count"] = lambda it, a, k: 4
        it.exts["os.environ"] = Dct()
        it.exts["sys.executable"] = "python"
        it.exts["sys.hexversion"] = 50
        cfg = config(it)
        cfg_env = it.call(it.attr(cfg, "get_pool_config"), [101], [])
        env = Stub("envvalue")
        it.setitem(cfg_env, "env", Dct())
        it.setitem(dget(cfg_env, "env"), "K", env)
        child = Child(it)
        ev = outcome(it, "the child", "reports its address", "exits before it reports", "exits right after it reported", "cannot be started", "never answers and the start is cancelled", "parameters too large", "cancelled while starting")
        sm.close_fails = outcome(it, "closing the block", "ok", "fails") == "fails" if ev in ("exits before it reports", "never answers and the start is cancelled") else False
        it.stubs["time.sleep"] = lambda it, a, k: it.await_(it.call(("ext", "asyncio.sleep"), [a[0]], []))
        if ev == "parameters too large":
            sm.size = 20000

        def spawn(it, a, k):
            def body():
                cmd = list(a)
                it.claim("start_sub_pool" in cmd and "-sn" in cmd and cmd[cmd.index("-sn") + 1:][:1] == ["shm1"], "the child is not told the name of the block")
                d = dict(k)
                it.claim(isinstance(d.get("env"), Dct) and dget(d["env"], "K") is env, "the child does not get the environment of its pool")
                seqs = mod.defs["_ShmSeq"]
                p = it.call(mod.defs["_shm_get_object"], [it.attr(seqs, "INIT_PARAMS"), sm.stub], [])
                it.claim(isinstance(p, Dct) and dget(p, "actor_pool_config") is cfg and dget(p, "process_index") == 101 and dget(p, "main_pool_pid") == 4711, "the child is started before its parameters are stored")
                if ev == "cannot be started":
                    it.raise_("FileNotFoundError")
                if ev == "cancelled while starting":
                    it.raise_("CancelledError")

                def behave():
                    it.await_(it.call(("ext", "asyncio.sleep"), [0.35], []))
                    if ev.startswith("reports") or ev.endswith("reported"):
                        it.call(mod.defs["_shm_put_object"], [it.attr(seqs, "INIT_RESULT"), sm.stub, ADDR], [])
                    if ev.startswith("exits"):
                        child.exit(3)
                it.spawn(Coro(behave, "child"), "child")
                return child.stub
            return Coro(body, "exec")
        it.stubs["fate_sharing.create_subprocess_exec"] = spawn
        it.stubs["indigen.pool.create_subprocess_exec"] = spawn
        it.stubs["asyncio.create_subprocess_exec"] = spawn
        t = it.spawn(it.call(it.attr(main, "start_sub_pool"), [cfg, 101], []), "start")

        def cancel():
            it.await_(it.call(("ext", "asyncio.sleep"), [2.05], []))
            if ev.startswith("never"):
                it.call(it.attr(t, "cancel"), [], [])
        it.spawn(Coro(cancel, "cancel"), "cancel")
        st, v = attempt(it, lambda: it.await_(t))
        it.claim("close" in sm.state and "unlink" in sm.state and sm.state.count("unlink") == 1, "the shared memory block is left behind")
        ok = st == "ok" and isinstance(v, Seq) and v.parts[0] is child.stub and v.parts[1] is ADDR
        if ev == "reports its address":
            it.claim(ok, "a sub pool that reported its address is not returned with it")
            it.claim(not child.signals, "a sub pool that started is killed")
        elif ev.startswith("exits right"):
            it.claim(ok or st == "raise", "a start is neither reported nor refused")
        else:
            it.claim(st == "raise", "a sub pool that did not start is reported as started")
            it.claim(ev.startswith("never") or ev == "cancelled while starting" or ev != "exits before it reports" or sm.close_fails or err_is(it, v, "OSError"), "a failed start is not reported as OSError")
            it.claim(child.dead or "KILL" in child.signals or not ev.startswith("never"), "the process of a start that was cancelled is left running")
    run("start of a sub pool", start)


def _ready(ctx, main):
    run = Sc(ctx, "failed-start-kills-the-others", ctx.prog.method(main, "wait_sub_pools_ready")).run

    def ready(it):
        kids, tasks = [], []
        outs = []
        for i in range(ctx.more(3, 4)):
            o = outcome(it, f"sub pool {i}", "ok", "fails", "slow") if i else outcome(it, f"sub pool {i}", "ok", "fails", "slow", "slow failure")
            outs.append(o)
            c = Child(it, f"proc{i}")
            kids.append((o, c))

            def body(i=i, o=o, c=c):
                c.running = True
                if o.startswith("slow"):
                    it.await_(it.call(("ext", "asyncio.sleep"), [3], []))
                if "fail" in o:
                    c.running = False
                    it.raise_("OSError", f"e{i}")
                c.given = True
                return Seq("tuple", [c.stub, f"addr{i}"])
            c.given = False
            tasks.append(it.spawn(Coro(body, f"start{i}"), f"start{i}"))
        dead = outcome(it, "the first process", "lives", "died after it started")
        when = outcome(it, "waiting", "goes on", "is cancelled at once", "is cancelled later")
        t = it.spawn(it.call(it.attr(main, "wait_sub_pools_ready"), [Seq("list", tasks)], []), "ready")
        if when != "goes on":
            def cancel():
                it.await_(it.call(("ext", "asyncio.sleep"), [0.5 if when.endswith("later") else 0.01], []))
                it.call(it.attr(t, "cancel"), [], [])
            it.spawn(Coro(cancel, "cancel"), "cancel")
        if dead != "lives":
            def die():
                it.await_(it.call(("ext", "asyncio.sleep"), [0.2], []))
                kids[0][1].exit(1)
            it.spawn(Coro(die, "die"), "die")
        done_before = None
        st, v = attempt(it, lambda: it.await_(t))
        it.await_(it.call(("ext", "asyncio.sleep"), [10], []))
        failed = [o for o in outs if "fail" in o]
        if st == "ok":
            it.claim(not failed, "a failed start is not reported")
            it.claim([p for p in v.parts[0].parts] == [c.stub for _, c in kids] and list(v.parts[1].parts) == [f"addr{i}" for i in range(len(kids))], "processes and addresses are not in the order of the tasks")
            it.claim(all(not c.signals for _, c in kids), "a process is killed although all sub pools started")
        else:
            it.claim(failed or when != "goes on", "starting fails although every sub pool started")
            for i, (o, c) in enumerate(kids):
                it.claim(not c.given or c.dead, "a sub pool stays running although another one failed to start" if when == "goes on" else "a sub pool stays running although the start was cancelled")
            it.claim(all(x.done for x in tasks), "a start is left running after the failure was reported")
            if when == "goes on" and failed:
                it.claim(err_is(it, v, "OSError"), "the error of the failed start is not raised")
    run("every combination of outcomes of three sub pools", ready, max_paths=4000)


def _create(ctx, main):
    run = Sc(ctx, "failed-start-kills-the-others", ctx.prog.method(main, "create")).run

    def create(it):
        cfg = it.call(it.prog.module("backends.config").defs["ActorPoolConfig"], [], [])
        for i, a in enumerate((MAIN, SUB1, SUB2)):
            it.call(it.attr(cfg, "add_pool_conf"), [100 + i, None, f"int:{i}", a], [])
        kids = []
        ev = outcome(it, "creation of the main pool", "ok", "fails", "is cancelled", "sub pool fails", "address table broken")
        gone = ev != "ok" and outcome(it, "the first sub pool", "runs", "ended by itself") != "runs"

        def start(it, a, k):
            def body():
                i = a[-1] if isinstance(a[-1], int) else dict(k).get("process_index") or [x for x in a if isinstance(x, int)][0]
                if ev == "sub pool fails" and i == 102:
                    it.raise_("OSError")
                c = Child(it, f"proc{i}")
                kids.append(c)
                if i == 101 and gone:
                    c.stub.methods["kill"] = lambda it, a, k: it.raise_("ProcessLookupError")
                    c.exit(1)
                return Seq("tuple", [c.stub, {101: SUB1, 102: SUB2}[i]])
            return Coro(body, "start")
        it.stubs["MainActorPool.start_sub_pool"] = start
        made = []

        def base(it, a, k):
            def body():
                it.claim(len(kids) == 2, "the main pool is created before its sub pools are ready")
                if ev == "fails":
                    it.raise_("OSError")
                if ev == "is cancelled":
                    it.raise_("CancelledError")
                p = pool(it, main, cfg=cfg)
                made.append(p)
                if ev == "address table broken":
                    it.setattr(p, "_config", None)
                return p
            return Coro(body, "create")
        it.stubs["AbstractActorPool.create"] = base
        it.stubs["ActorPoolBase.create"] = base
        arg = Dct()
        it.setitem(arg, "actor_pool_config", cfg)
        it.setitem(arg, "process_index", 100)
        it.setitem(arg, "start_python", None)
        if ev == "address table broken":
            it.stubs["MainActorPoolBase.attach_sub_process"] = lambda it, a, k: it.raise_("KeyError")
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(main, "create"), [arg], [])))
        it.drain()
        if ev == "ok":
            it.claim(st == "ok" and v is made[0], "creation of a healthy pool fails")
            if st == "ok":
                sp = items_of(it.attr(v, "sub_processes"))
                it.claim([(a, p) for a, p in sp] == [(SUB1, kids[0].stub), (SUB2, kids[1].stub)], "the processes are not attached under their addresses")
            it.claim(all(not c.signals for c in kids), "the sub pools of a healthy pool are killed")
        else:
            it.claim(st == "raise", "the failure is not reported")
            it.claim(all(c.dead for c in kids), "sub pools stay running although the main pool was not created")
    run("the main pool fails after its sub pools started", create)


def _kill(ctx, main):
    run = Sc(ctx, "killed-process-is-reaped", ctx.prog.method(main, "kill_sub_pool")).run

    def kill(it):
        force = outcome(it, "forced", False, True)
        how = outcome(it, "on SIGTERM the process", "exits", "exits later", "hangs", "is gone already")
        ver = outcome(it, "python", "3.9", "3.13")
        c = Child(it, "proc", {"exits": "exits", "exits later": "later", "hangs": "never", "is gone already": "gone"}[how], ignores_kill=outcome(it, "SIGKILL", "works", "process in uninterruptible sleep") != "works")
        it.exts["sys.version_info"] = Seq("tuple", [3, 13 if ver == "3.13" else 9, 0])
        tree = []
        p = pool(it, main)

        def ps(it, a, k):
            it.claim(len(a) == 1 and a[0] == c.stub.attrs["pid"], "another process is looked up")
            o = outcome(it, "psutil", "found", "gone")
            if o == "gone":
                it.raise_("NoSuchProcess")
            reaped = c.dead

            def pk(it, a, k):
                it.claim(not reaped, "a process is killed by the pid of a process that was reaped already")
                return None

            def pw(it, a, k):
                to = a[0] if a else dict(k).get("timeout")
                it.claim(isinstance(to, (int, float)), "waits without limit")
                if outcome(it, "psutil wait", "exits", "times out") != "exits":
                    it.raise_("TimeoutExpired")

            def kid(name, kids):
                def kill(it, a, k):
                    it.claim(not reaped, "the children of an unrelated process are killed")
                    tree.remove(name) if name in tree else None
                    if outcome(it, name, "there", "gone") == "gone":
                        it.raise_("NoSuchProcess")
                return Stub(name, {"pid": name}, {"kill": kill, "children": lambda it, a, k: Seq("list", list(kids)), "is_running": lambda it, a, k: True, "wait": lambda it, a, k: None})
            k2 = kid("grandchild", [])
            k1, k3 = kid("child", [k2]), kid("second child", [])

            def run(it, a, k):
                r = outcome(it, "is_running", True, False)
                tree[:] = [] if not r or reaped else ["child", "grandchild", "second child"]
                return r
            return Stub("psproc", {"pid": c.stub.attrs["pid"]}, {"is_running": run, "children": lambda it, a, k: Seq("list", [k1, k2, k3] if (a[0] if a else dict(k).get("recursive")) else [k1, k3]), "kill": pk, "wait": pw})
        it.stubs["psutil.Process"] = ps
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(p, "kill_sub_pool"), [c.stub], [("force", force)])))
        it.claim(st == "ok", "killing a sub pool raises")
        it.claim(not tree, f"a process that a sub pool started outlives it: {', '.join(tree)}")
        it.claim(c.dead or c.ignores_kill, "the process is still running")
        it.claim(c.dead or "KILL" in c.signals, "a process that does not exit is not killed")
        it.claim(not c.ignores_kill or c.dead or "KILL" in c.signals, "the process is not killed forcibly")
        it.claim(force or how == "is gone already" or c.signals[:1] == ["TERM"], "the process gets no chance to end")
        it.claim(not (force and how == "exits") or "KILL" in c.signals, "a process that has to be killed at once is only asked to end")
        it.claim(how not in ("exits", "exits later") or force or "KILL" not in c.signals, "a process that ends when asked to is killed")
        it.claim(c.waited or how == "is gone already" or force and c.dead, "the process is not waited for")
        it.claim(it.now < 60, "killing takes unbounded time")
    run("kill of a sub pool process", kill, max_paths=3000)

    def alive(it):
        p = pool(it, main)
        c = Child(it)
        code = outcome(it, "process", "runs", 0, 1, -9)
        if code != "runs":
            c.exit(code)
        r = it.await_(it.call(it.attr(p, "is_sub_pool_alive"), [c.stub], []))
        it.claim(it.truth(r) == (code == "runs"), "a process is not seen as alive exactly while it runs")
    run("alive or not", alive)


def _child(ctx, mod, main):
    name = "_start_sub_pool_in_child"
    f = ctx.prog.method(main, name)
    run = Sc(ctx, "sub-pool-follows-its-main", f).run

    def child(it):
        sm = Shm(it)
        log = []
        threads = []
        it.stubs["shared_memory.SharedMemory"] = lambda it, a, k: (it.claim(a[:1] == ["shm1"] and not dict(k).get("create"), "the child does not attach to the block of its parent"), sm.stub)[1]
        cfg = config(it)
        cf = it.call(it.attr(cfg, "get_pool_config"), [101], [])
        for n, v in (("suspend_sigint", outcome(it, "suspend_sigint", True, False)), ("logging_conf", None), ("use_uvloop", outcome(it, "use_uvloop", False, True)), ("env", Dct([("GPU", "1")]))):
            it.setitem(cf, n, v)
        arg = Dct()
        for n, v in (("actor_pool_config", cfg), ("process_index", 101), ("main_pool_pid", 99), ("python_version", 50)):
            it.setitem(arg, n, v)
        it.exts["sys.hexversion"] = 50
        for n in ("random.seed", "reset_id_random_seed", "signal.signal", "asyncio.set_event_loop", "ensure_coverage", "uuid.uuid1", "uvloop.new_event_loop"):
            it.stubs[n] = lambda it, a, k: Stub("x", {"bytes": b"seed", "hex": "seed", "int": 7})
        it.exts["os.environ"] = Dct([("GPU", "0"), ("B", "2")])

        def env():
            it.claim(dict(items_of(it.exts["os.environ"])) == {"GPU": "1", "B": "2"}, "the pool is created before its environment is set")
        seqs = mod.defs["_ShmSeq"]
        it.call(mod.defs["_shm_put_object"], [it.attr(seqs, "INIT_PARAMS"), sm.stub, arg], [])
        ev = outcome(it, "running the pool", "ends", "creation fails", "start fails")

        def thread(it, a, k):
            d = dict(k)
            th = Stub("thread", {"daemon": d.get("daemon")})
            th.target, th.args = d.get("target"), d.get("args")
            th.methods["start"] = lambda it, a, k: (threads.append(th), log.append("watch"), None)[2]
            return th
        it.stubs["threading.Thread"] = thread
        pl = Stub("pool", {}, {"start": lambda it, a, k: Coro(lambda: it.raise_("OSError") if ev == "start fails" else log.append("started"), "start"), "join": lambda it, a, k: (it.claim(all(x is None for x in list(a) + [y for _, y in k]), "the process of a sub pool ends after a time although its pool is in use"), Coro(lambda: log.append("join"), "join"))[1]})

        def create(it, a, k):
            def body():
                log.append("create")
                env()
                d = a[-1]
                it.claim(dget(d, "actor_pool_config") is cfg and dget(d, "process_index") == 101 and dget(d, "main_pool_pid") == 99, "the sub pool is created with something else than it was given")
                if ev == "creation fails":
                    it.raise_("OSError")
                it.setitem(cf, "external_address", "sub:resolved")
                return pl
            return Coro(body, "create")
        it.stubs["SubActorPool.create"] = create
        it.stubs["SubActorPoolBase.create"] = create
        it.stubs["ActorPoolBase.create"] = create
        it.stubs["AbstractActorPool.create"] = create

        def arun(it, a, k):
            it.claim(bool(threads), "the pool runs before the watch on the main pool is started")

            def spy():
                if it.call(mod.defs["_shm_get_object"], [it.attr(seqs, "INIT_RESULT"), sm.stub], []) is not None:
                    it.claim("started" in log, "the address is reported before the pool is started")
                    log.append("reported")
            sm.spy = spy
            r = it.await_(a[0])
            it.claim("reported" in log and "join" in log, "the pool does not report its address and run")
            it.claim(it.call(mod.defs["_shm_get_object"], [it.attr(seqs, "INIT_RESULT"), sm.stub], []) == "sub:resolved", "the child does not report the address its pool listens on")
            it.claim(log.index("reported") < log.index("join") if "reported" in log and "join" in log else True, "the address is reported when the pool ended")
            return r
        it.stubs["asyncio.run"] = arun
        it.stubs["run_until_complete"] = arun
        st, v = attempt(it, lambda: it.call(it.attr(main, name), ["shm1"], []))
        it.claim((st == "ok") == (ev == "ends"), "the outcome of the pool is not that of the child")
        it.claim("close" in sm.state, "the child does not close the block")
        it.claim(bool(threads), "the watch on the main pool is not started")
        if not threads:
            return
        th = threads[0]
        it.claim(th.attrs.get("daemon") is True, "the watch on the main pool keeps the process alive")
        seq = outcome(it, "main pool process", "gone", "alive, then gone", "error, then gone")
        n = [0]

        def ps(it, a, k):
            it.claim(a[:1] == [99], "another process than the main pool is watched")
            n[0] += 1
            if seq == "gone" or n[0] > 2:
                it.raise_("NoSuchProcess")
            if "error" in seq:
                it.raise_("AccessDenied")
            return Stub("ps", {}, {"is_running": lambda it, a, k: True, "status": lambda it, a, k: "running"})

        def pid_exists(it, a, k):
            n[0] += 1
            return not (seq == "gone" or n[0] > 2)
        it.stubs["psutil.Process"] = ps
        it.stubs["psutil.pid_exists"] = pid_exists
        slept = []

        def sleep(it, a, k):
            slept.append(a[0])
            it.claim(a[0] > 0 and a[0] <= 60, "the main pool is not watched often enough")
            if len(slept) > 6:
                it.raise_("Never", "x")
        it.stubs["time.sleep"] = sleep
        out = []

        def ex(it, a, k):
            out.append(a[0])
            it.raise_("SystemExit")
        it.stubs["os._exit"] = ex
        st, v = attempt(it, lambda: it.call(th.target, list(th.args.parts) if isinstance(th.args, Seq) else [], []))
        it.claim(bool(out), "the sub pool process outlives its main pool")
        it.claim(n[0] == (1 if seq == "gone" else 3), "the sub pool process ends although its main pool lives")
    run("a child whose main pool ends", child, max_paths=2000)


def _watch(ctx):
    sub = sub_pool(ctx)
    run = Sc(ctx, "sub-pool-follows-its-main", ctx.prog.method(sub, "_watch_main_pool") if ctx.prog.method(sub, "_watch_main_pool", required=False) else ctx.prog.method(sub, "__init__")).run

    def watch(it):
        ends = outcome(it, "main pool", "gone later (status)", "gone later (lookup)", "lives")
        n = [0]

        def status(it, a, k):
            n[0] += 1
            if ends != "lives" and n[0] > 3:
                it.raise_("NoSuchProcess" if "status" in ends else "ProcessLookupError")
            return "running"
        it.stubs["psutil.Process"] = lambda it, a, k: (it.claim(a[:1] == [99], "another process than the main pool is watched"), Stub("ps", {}, {"status": status, "is_running": lambda it, a, k: it.truth(status(it, a, k)) if ends == "lives" or n[0] <= 3 else False}))[1]
        stopped = []

        def stop(it, a, k):
            return Coro(lambda: (stopped.append(1), it.call(it.attr(it.attr(a[0], "_stopped"), "set"), [], []), None)[2], "stop")
        it.stubs["AbstractActorPool.stop"] = stop
        it.stubs["ActorPoolBase.stop"] = stop
        p = pool(it, sub, SUB1, index=101, main_address=MAIN, main_pool_pid=99)
        it.await_(it.call(("ext", "asyncio.sleep"), [5], []))
        if ends == "lives":
            it.claim(not stopped and n[0] > 3, "a sub pool stops although its main pool lives")
        else:
            it.claim(stopped, "a sub pool does not stop when its main pool is gone")
    run("the main pool of a sub pool disappears", watch)


def _spawn(ctx):
    fs = ctx.prog.module("backends.indigen.fate_sharing")
    run = Sc(ctx, "kernel-fate-sharing", fs.defs["create_subprocess_exec"]).run

    def spawn(it):
        it.exts["sys.platform"] = plat = outcome(it, "platform", "linux", "darwin", "win32")
        got = []
        resumed = outcome(it, "binding", "ok", "fails") if plat == "win32" else "ok"
        child = Child(it)
        child.stub.attrs["_transport"] = Stub("transport", {"_proc": Stub("popen")})
        it.stubs["fate_sharing.detect_fate_sharing_support_win32"] = lambda it, a, k: True

        def ex(it, a, k):
            def body():
                got.append((a, dict(k)))
                return child.stub
            return Coro(body, "exec")
        it.stubs["asyncio.create_subprocess_exec"] = ex
        it.stubs["asyncio.subprocess.create_subprocess_exec"] = ex

        def bind(it, a, k):
            if resumed == "fails":
                it.raise_("OSError")
            got.append("bound")
        it.stubs["fate_sharing.set_kill_child_on_death_win32"] = bind
        it.stubs["psutil.Process"] = lambda it, a, k: Stub("ps", {}, {"resume": lambda it, a, k: got.append("resumed")})
        st, v = attempt(it, lambda: it.await_(it.call(fs.defs["create_subprocess_exec"], ["a", "b"], [("env", "E")])))
        it.claim(len([g for g in got if isinstance(g, tuple)]) == 1 and list(got[0][0]) == ["a", "b"] and got[0][1].get("env") == "E", "the process is not started as asked for")
        if resumed == "fails":
            it.claim(st == "raise" and child.dead, "a process that cannot be bound to its parent is left suspended")
            return
        it.claim(st == "ok" and v is child.stub, "the process is not returned")
        if plat == "win32":
            it.claim(got[1:] == ["bound", "resumed"], "the process runs before it is bound to its parent")
            return
        pre = got[0][1].get("preexec_fn")
        it.claim(pre is not None, "the child does not prepare itself")
        if pre is None:
            return
        calls = []
        masks = []
        it.exts["signal.SIG_BLOCK"] = 0
        it.stubs["signal.pthread_sigmask"] = lambda it, a, k: masks.append((a[0], [it.fz(x) for x in it.iterate(a[1])]))
        it.exts["signal.SIGKILL"] = 9
        it.exts["signal.SIGINT"] = 2

        pr = outcome(it, "prctl", "works", "fails") if plat == "linux" else "works"

        def prctl(it, a, k):
            calls.append(tuple(a))
            return 0 if pr == "works" else -1
        it.stubs["fate_sharing.detect_fate_sharing_support_linux"] = lambda it, a, k: True
        it.mods[(fs.name, "linux_prctl")] = Native(prctl, "prctl")
        it.stubs["ctypes.get_errno"] = lambda it, a, k: 1
        st, v = attempt(it, lambda: it.call(pre, [], []))
        it.claim(masks == [(0, [2])], "an interrupt for the main process ends its sub pools, too")
        if plat == "linux":
            it.claim(calls and calls[0][:2] == (1, 9), "the kernel is not asked to kill the child when its parent dies")
            it.claim((st == "ok") == (pr == "works"), "a failure to bind the child to its parent is not reported")
        else:
            it.claim(st == "ok", "the child fails to prepare itself")
    run("start of a process", spawn)


def _block(ctx):
    m = ctx.prog.module("backends.indigen.shared_memory")
    cls = m.defs["SharedMemory"]
    run = Sc(ctx, "failed-start-leaves-nothing", ctx.prog.method(cls, "__init__")).run

    def block(it):
        it.mods[(m.name, "_USE_POSIX")] = True
        it.clsattrs[(cls.qual, "_prepend_leading_slash")] = True
        linked, fds, maps = [], [], []
        it.mods[(m.name, "_O_CREX")] = 192
        for n, v in (("O_RDWR", 2), ("O_CREAT", 64), ("O_EXCL", 128)):
            it.exts["os." + n] = v
        it.clsattrs[(cls.qual, "_flags")] = 2
        create = outcome(it, "block", "created", "attached") == "created"
        step = outcome(it, "failing step", None, "ftruncate", "fstat", "mmap") if create else None
        clash = outcome(it, "name", "free", "taken once") if create else "free"
        tries = []

        def op(it, a, k):
            tries.append(a[0])
            if clash != "free" and len(tries) == 1:
                it.raise_("FileExistsError")
            linked.append(a[0])
            fds.append(5)
            return 5
        it.stubs["_posixshmem.shm_open"] = op
        it.stubs["_posixshmem.shm_unlink"] = lambda it, a, k: linked.remove(a[0]) if a[0] in linked else it.raise_("FileNotFoundError")
        it.stubs["shared_memory._make_filename"] = lambda it, a, k: f"/psm_{len(tries)}"

        def fl(name, val):
            def f(it, a, k):
                if step == name:
                    it.raise_("OSError")
                return val() if callable(val) else val
            return f
        it.stubs["os.ftruncate"] = fl("ftruncate", None)
        it.stubs["os.fstat"] = fl("fstat", Stub("st", {"st_size": 10240}))
        mm = Stub("mmap", {}, {"close": lambda it, a, k: maps.append("closed")})
        it.stubs["mmap.mmap"] = fl("mmap", mm)
        it.stubs["memoryview"] = lambda it, a, k: Stub("view", {}, {"release": lambda it, a, k: maps.append("released")})
        it.stubs["os.close"] = lambda it, a, k: fds.remove(a[0])
        reg = []
        it.stubs["multiprocessing.resource_tracker.register"] = lambda it, a, k: reg.append(a[0])
        it.stubs["multiprocessing.resource_tracker.unregister"] = lambda it, a, k: reg.remove(a[0]) if a[0] in reg else None
        track = outcome(it, "track", True, False)
        st, v = attempt(it, lambda: it.call(cls, [] if create else ["x"], ([("create", True), ("size", 10240)] if create else []) + [("track", track)]))
        if step:
            it.claim(st == "raise", "a block that cannot be mapped is returned")
            it.claim(not linked, "a block that cannot be mapped is left behind")
            return
        it.claim(st == "ok", "a block cannot be created")
        if st != "ok":
            return
        it.claim(bool(reg) == track, "the block is tracked although it must not be" if reg else "the block is not tracked")
        it.call(it.attr(v, "close"), [], [])
        it.claim(not fds and "closed" in maps and maps.index("released") < maps.index("closed"), "closing a block leaves it mapped or open")
        it.call(it.attr(v, "close"), [], [])
        if create:
            it.call(it.attr(v, "unlink"), [], [])
            it.claim(not linked and not reg, "unlinking a block leaves it behind")
    run("creation and destruction of a block", block)

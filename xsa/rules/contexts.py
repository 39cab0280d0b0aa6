"""C29: what a user asks for is what is sent; by abstract interpretation of every operation of the public API, of the
contexts under it, and of the methods of references, with distinct symbolic arguments."""
from .client import *
from .lifecycle import *
from .records import *

V = lambda n: Stub("value " + n)


def args_of(it, m):
    return list(it.iterate(m.attrs["args"])), dict(items_of(m.attrs["kwargs"]))


def contexts(ctx: Ctx):
    _ops(ctx)
    _client(ctx)
    _api(ctx)
    _methods(ctx)


def _ops(ctx):
    cls = ctx.prog.module("backends.context").defs["IndigenActorContext"]

    def setup(it, answer=None):
        it.stubs.pop("core.create_local_actor_ref", None)
        return Client(it, answer)

    def run(op, title, go):
        Sc(ctx, "context", ctx.method(cls, op)).run(title, go)

    def reply(it, value):
        """answers with the value or an error; gives what the caller has to see"""
        res = outcome(it, "answer", "result", "error")

        def answer(d):
            return c[0].ok(d, value) if res == "result" else c[0].err(d, "ActorNotExist")
        c = [None]
        return c, answer, res

    def result(it, st, v, res, value):
        if res == "result":
            it.claim(st == "ok" and it.fz(v) == it.fz(value), "the answer is not what the operation gives")
        else:
            it.claim(st == "raise" and err_is(it, v, "ActorNotExist"), "the error answered is not raised")

    def one(it, c, kind, address, px=None):
        it.claim(len(c.sent) == 1 and is_msg(c.sent[0]["message"], kind), "the operation does not send one message of its kind")
        if len(c.sent) != 1 or not is_msg(c.sent[0]["message"], kind):
            return None
        d = c.sent[0]
        it.claim(d["address"] == address, "the message of the operation goes to another address")
        it.claim(it.fz(d["proxy_addresses"]) == it.fz(px), "the message of the operation does not take the route of the reference")
        return d["message"]

    def create(it):
        cell, answer, res = reply(it, ref(it, SUB1, A))
        c = cell[0] = setup(it, answer)
        addr = outcome(it, "address", SUB1, None)
        strat = outcome(it, "strategy", "given", "none", "something else")
        s = {"given": it.call(it.prog.module("backends.allocate_strategy").defs["ProcessIndex"], [1], []), "none": None, "something else": V("a user's argument of that name")}[strat]
        x, y, z, act = V("x"), V("y"), V("z"), V("class")
        kw = {"z": z}
        if s is not None:
            kw["allocate_strategy"] = s
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(c.ctx, "create_actor"), [act, x, y], [("uid", A), ("address", addr)] + list(kw.items()))))
        m = one(it, c, "CreateActorMessage", addr or "self:1")
        if m is None:
            return
        it.claim(m.attrs["actor_cls"] is act and m.attrs["actor_id"] == A, "another actor is created than asked for")
        p, k = args_of(it, m)
        want = {"z": z} if strat != "something else" else kw
        it.claim(len(p) == 2 and p[0] is x and p[1] is y and set(k) == set(want) and all(k[n] is want[n] for n in want), "an actor is created with other arguments than given")
        a = m.attrs["allocate_strategy"]
        if strat == "given":
            it.claim(a is s, "an actor is placed by another strategy than given")
        else:
            it.claim(isinstance(a, Obj) and a.cls.name == "AddressSpecified" and a.attrs["address"] == (addr or "self:1"), "an actor is not placed at the address given")
        result(it, st, v, res, ref(it, SUB1, A))
    run("create_actor", "creating an actor", create)

    def simple(op, kind):
        def go(it):
            value = outcome(it, "value", True, False)
            cell, answer, res = reply(it, value)
            c = cell[0] = setup(it, answer)
            px = outcome(it, "proxies", True, False) and PX or None
            r = ref(it, SUB1, A, px)
            st, v = attempt(it, lambda: it.await_(it.call(it.attr(c.ctx, op), [r], [])))
            m = one(it, c, kind, SUB1, px)
            if m is not None:
                it.claim(it.fz(m.attrs["actor_ref"]) == it.fz(r), "the operation names another actor")
            result(it, st, v, res, value)
        return go
    run("has_actor", "asking for an actor", simple("has_actor", "HasActorMessage"))
    run("destroy_actor", "destroying an actor", simple("destroy_actor", "DestroyActorMessage"))

    def lookup(it):
        there = outcome(it, "answered address", SUB2, "0.0.0.0:7", ":::7")
        connect = outcome(it, "address", "10.0.0.1:7", "0.0.0.0:8", "2001:db8::1:7")
        back = ref(it, there, A)
        cell, answer, res = reply(it, back)
        c = cell[0] = setup(it, answer)
        px = outcome(it, "proxies", True, False) and PX or None
        local = outcome(it, "actor of this process", True, False)
        here = V("local reference")
        asked = []
        it.stubs["core.create_local_actor_ref"] = lambda it, a, k: (asked.append(tuple(a)), here if local else None)[1]
        it.stubs["_utils.create_actor_ref"] = lambda it, a, k: ref(it, connect, A, px)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(c.ctx, "actor_ref"), [V("args")], [])))
        it.claim(asked == [(connect, A)], "an actor of this process is looked for by another name")
        if local:
            it.claim(st == "ok" and v is here and not c.sent, "an actor of this process is not found")
            return
        m = one(it, c, "ActorRefMessage", connect, px)
        if m is not None:
            r = m.attrs["actor_ref"]
            it.claim((r.attrs["address"], r.attrs["uid"]) == (connect, A), "another actor is looked for")
        if res == "error":
            it.claim(st == "raise" and err_is(it, v, "ActorNotExist"), "the error answered is not raised")
            return
        zero = there != SUB2 and connect != "0.0.0.0:8"
        want = {"10.0.0.1:7": "10.0.0.1:7", "2001:db8::1:7": "2001:db8::1:7"}.get(connect) if zero else there
        it.claim(st == "ok" and isinstance(v, Obj) and v.attrs["uid"] == A, "another actor is found than the one answered")
        it.claim(st == "ok" and isinstance(v, Obj) and v.attrs["address"] == want, "the reference found cannot be reached from here")
    run("actor_ref", "looking up an actor", lookup)

    def send(it):
        value = V("result")
        cell, answer, res = reply(it, value)
        c = cell[0] = setup(it)
        px = outcome(it, "proxies", True, False) and PX or None
        wait = outcome(it, "answer awaited", True, False)
        r = ref(it, SUB1, A, px)
        content, prof = Seq("tuple", ["m", 0, Seq("tuple", [V("a")]), Dct([("k", V("b"))])]), V("profiling context")
        t = it.spawn(it.call(it.attr(c.ctx, "send"), [r, content], [("wait_response", wait), ("profiling_context", prof)]), "send")
        it.drain()
        m = one(it, c, "SendMessage", SUB1, px)
        if m is None:
            return
        it.claim(it.fz(m.attrs["actor_ref"]) == it.fz(r), "a call goes to another actor")
        it.claim(it.fz(m.attrs["content"]) == it.fz(content), "a call carries something else than given")
        it.claim(m.attrs["profiling_context"] is prof, "a call loses its profiling context")
        it.claim(c.sent[0]["wait"] is False or wait, "a call that needs no answer waits for it")
        if not wait:
            it.claim(t.done and t.state == "done" and not getattr(t.value, "done", True), "a call that needs no answer does not end when it is sent")
        else:
            it.claim(not t.done, "a call ends before its answer is there")
        c.reply(c.sent[0], c.ok(c.sent[0], value) if res == "result" else c.err(c.sent[0], "ActorNotExist"))
        it.drain()
        if wait:
            st, v = attempt(it, lambda: it.await_(t))
            result(it, st, v, res, value)
    run("send", "calling a method", send)

    def cancel(it):
        cell, answer, res = reply(it, True)
        c = cell[0] = setup(it, answer)
        px = outcome(it, "proxies", True, False) and PX or None
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(c.ctx, "cancel"), [SUB1, b"id"], [("proxy_addresses", px)])))
        m = one(it, c, "CancelMessage", SUB1, px)
        if m is not None:
            it.claim(m.attrs["cancel_message_id"] == b"id", "another call is cancelled")
        result(it, st, v, res, True)
    run("cancel", "cancelling a call", cancel)

    def control(it, c, d, address, kind, content):
        m = d["message"]
        it.claim(is_msg(m, "ControlMessage") and d["address"] == address and kind in str(m.attrs["control_message_type"]) and it.fz(m.attrs["content"]) == it.fz(content),
                 "the control message sent is not the one of the operation")
        return m

    def recovered(it):
        given = outcome(it, "main address", MAIN, None, SUB1)
        main = outcome(it, "main pool", MAIN, SUB1) if given is None else given
        fail = outcome(it, "waiting", "ends", "fails")

        def answer(d):
            if "get_config" in str(d["message"].attrs["control_message_type"]):
                return c.ok(d, main)
            return c.ok(d, None) if fail == "ends" else c.err(d, "ServerClosed")
        c = setup(it, answer)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(c.ctx, "wait_actor_pool_recovered"), [SUB1, given], [])))
        n = (given is None) + (main != SUB1)
        it.claim(len(c.sent) == n, "waiting for a pool does not ask for it")
        if len(c.sent) != n:
            return
        if given is None:
            control(it, c, c.sent[0], SUB1, "get_config", "main_pool_address")
        if main != SUB1:
            m = control(it, c, c.sent[-1], main, "wait_pool_recovered", None)
            it.claim(m.attrs["address"] == SUB1, "another pool is waited for")
        it.claim((st == "ok") == (main == SUB1 or fail == "ends"), "waiting for a pool does not end as answered")
    run("wait_actor_pool_recovered", "waiting for a pool", recovered)

    def get(it):
        value = V("config")
        cell, answer, res = reply(it, value)
        c = cell[0] = setup(it, answer)
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(c.ctx, "get_pool_config"), [SUB1], [])))
        if one(it, c, "ControlMessage", SUB1) is not None:
            control(it, c, c.sent[0], SUB1, "get_config", None)
        result(it, st, v, res, value)
    run("get_pool_config", "reading a pool's configuration", get)

    def kill(it):
        force = outcome(it, "force", True, False)
        where = outcome(it, "the actor is", "at the address asked", "on a sub pool", "on the main pool")
        asked = MAIN if where != "at the address asked" else SUB1
        real = {"at the address asked": SUB1, "on a sub pool": SUB2, "on the main pool": MAIN}[where]
        px = outcome(it, "proxies", True, False) and PX or None
        fail = outcome(it, "stopping", "works", "fails")

        def answer(d):
            m = d["message"]
            if is_msg(m, "ActorRefMessage"):
                return c.ok(d, ref(it, real, A))
            if "get_config" in str(m.attrs["control_message_type"]):
                return c.ok(d, MAIN)
            return c.ok(d, True) if fail == "works" else c.err(d, "ServerClosed")
        c = setup(it, answer)
        it.stubs["core.create_local_actor_ref"] = lambda it, a, k: None
        it.stubs["_utils.create_actor_ref"] = lambda it, a, k: a[0]
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(c.ctx, "kill_actor"), [ref(it, asked, A, px)], [("force", force)])))
        stops = [d for d in c.sent if is_msg(d["message"], "ControlMessage") and "stop" in str(d["message"].attrs["control_message_type"])]
        if real == MAIN:
            it.claim(st == "raise" and not stops, "the main pool is stopped to kill an actor on it")
            return
        it.claim(len(stops) == 1, "killing an actor does not stop its pool")
        if len(stops) == 1:
            d = stops[0]
            it.claim(d["address"] == MAIN and d["message"].attrs["address"] == real, "killing an actor stops another pool")
            it.claim(list(it.iterate(d["message"].attrs["content"]))[1] is force, "a pool is stopped by force although not asked to, or the other way round")
        it.claim(all(it.fz(d["proxy_addresses"]) == it.fz(px) for d in c.sent), "the message of the operation does not take the route of the reference")
        it.claim((st == "ok") == (fail == "works"), "killing an actor does not end as answered")
    run("kill_actor", "killing an actor", kill)


def spy(it, log, name):
    def method(n):
        def fn(it, a, k):
            log.append((name, n, list(a), dict(k)))
            return Coro(lambda: T("result", n), n)
        return Native(fn, n)
    return Stub(name, default=lambda it, n: method(n))


def _client(ctx):
    mod = ctx.prog.module("context")
    cls = mod.defs["ClientActorContext"]

    def make(it):
        log, made = [], []

        def backend(scheme):
            def fn(it, a, k):
                made.append((scheme, a[0]))
                return spy(it, log, str(scheme))
            return Native(fn, str(scheme))
        it.mods[(mod.name, "_backend_context_cls")] = Dct([(s, backend(s)) for s in (None, "ray", "test")])
        up = lambda it, a, k: Stub("url", {"scheme": a[0].split("://")[0], "netloc": a[0].split("://")[1].split("/")[0]})
        it.stubs["urllib.parse.urlparse"] = it.stubs["urlparse"] = up
        it.stubs["_utils.new_actor_id"] = lambda it, a, k: b"fresh"
        return it.call(cls, [], []), log, made

    def passed(it, log, scheme, op, a, k):
        it.claim(len(log) == 1 and log[0][0] == scheme, "an operation is not done by the backend of its address")
        if len(log) != 1:
            return
        _, n, ga, gk = log[0]
        it.claim(n == op, "another operation is done than asked for")
        same = lambda x, y: x is y or it.fz(x) == it.fz(y)
        it.claim(len(ga) == len(a) and all(same(x, y) for x, y in zip(ga, a)) and set(gk) == set(k) and all(same(gk[x], k[x]) for x in k), "an operation is done with other arguments than given")

    def go(it):
        c, log, made = make(it)
        scheme, addr = outcome(it, "address", (None, SUB1), ("ray", "ray://c/0/1"), ("test", "test://x"))
        op = outcome(it, "operation", "create_actor", "create_actor without id", "has_actor", "destroy_actor", "kill_actor", "actor_ref", "send", "tell", "wait_actor_pool_recovered", "get_pool_config", "buffer_ref", "file_object_ref")
        r = ref(it, addr, A, PX)
        x, y, act = V("x"), V("y"), V("class")
        call = lambda n, a, k=(): attempt(it, lambda: it.await_(it.call(it.attr(c, n), list(a), list(k))))
        if op.startswith("create_actor"):
            uid = A if op == "create_actor" else None
            st, v = call("create_actor", [act, x], [("uid", uid), ("address", addr), ("k", y)])
            passed(it, log, str(scheme), "create_actor", [act, x], {"uid": uid or b"fresh", "address": addr, "k": y})
        elif op in ("has_actor", "destroy_actor", "kill_actor"):
            st, v = call(op, [r])
            passed(it, log, str(scheme), op, [r], {})
        elif op == "actor_ref":
            it.stubs["_utils.create_actor_ref"] = lambda it, a, k: r if len(a) == 1 and a[0] is x and dict(k) == {"uid": A} else None
            st, v = call(op, [x], [("uid", A)])
            passed(it, log, str(scheme), op, [r], {})
        elif op in ("send", "tell"):
            wait = op == "send"
            st, v = call("send", [r, x], [("wait_response", wait), ("profiling_context", y)])
            passed(it, log, str(scheme), "send", [r, x], {"wait_response": wait, "profiling_context": y})
        elif op == "wait_actor_pool_recovered":
            st, v = call(op, [addr, MAIN])
            passed(it, log, str(scheme), op, [addr, MAIN], {})
        elif op == "get_pool_config":
            st, v = call(op, [addr])
            passed(it, log, str(scheme), op, [addr], {})
        else:
            st, v = call(op, [addr, x])
            passed(it, log, str(scheme), op, [addr, x], {})
        it.claim(st == "ok" and freeze(v) == T("result", op.split(" ")[0] if op != "tell" else "send"), "the result of an operation is lost")
        it.claim(made == [(scheme, addr)], "an operation is not done by the backend of its address")
        log.clear()
        call("get_pool_config", [addr])
        it.claim(len(made) == 1 and len(log) == 1, "a second operation of the same kind of address opens another context")
    Sc(ctx, "client", cls.methods["create_actor"]).run("passing operations to a backend", go)

    def copies(it):
        c, log, made = make(it)
        kind = outcome(it, "to", "buffers", "files")
        rc = ctx.prog.module("core").defs["BufferRef" if kind == "buffers" else "FileObjectRef"]
        n = outcome(it, "sources", 0, 1, 2)
        m = outcome(it, "destinations", 0, 1, 2)
        addrs = [SUB1, outcome(it, "second destination", SUB1, SUB2)] if m == 2 else [SUB1]
        block = outcome(it, "block size", None, 5, 0)
        src = Seq("list", [V(f"source {i}") for i in range(n)])
        dst = Seq("list", [Obj(rc, {"address": a, "uid": f"u{i}".encode()}) for i, a in enumerate(addrs[:m])])
        st, v = attempt(it, lambda: it.await_(it.call(it.attr(c, "copy_to"), [src, dst, block], [])))
        ok = n == m and n > 0 and len(set(addrs[:m])) == 1 and block != 0
        it.claim((st == "ok") == ok, "a copy with arguments that do not match is not refused, or one that match is")
        it.claim(ok or not log, "a copy is started with arguments that do not match")
        if ok:
            passed(it, log, "None", "copy_to_buffers" if kind == "buffers" else "copy_to_fileobjs", [src, dst, block], {})
    Sc(ctx, "client", cls.methods["copy_to"]).run("copying", copies)


def _api(ctx):
    mod = ctx.prog.module("api")

    def go(it):
        log = []
        it.stubs["context.get_context"] = it.stubs["get_context"] = lambda it, a, k: spy(it, log, "context")
        r = ref(it, SUB1, A)
        x, y, z, act = V("x"), V("y"), V("z"), V("class")
        op, a, k, want = outcome(it, "operation", *range(13)), None, None, None
        table = [
            ("create_actor", [act, x, y], {"uid": A, "address": SUB1, "z": z}, ([act, x, y], {"uid": A, "address": SUB1, "z": z})),
            ("create_actor", [act], {"address": SUB1}, ([act], {"uid": None, "address": SUB1})),
            ("has_actor", [r], {}, ([r], {})),
            ("destroy_actor", [r], {}, ([r], {})),
            ("actor_ref", [SUB1, A], {}, ([SUB1, A], {})),
            ("actor_ref", [A], {"address": SUB1}, ([A], {"address": SUB1})),
            ("kill_actor", [r], {}, ([r], {})),
            ("buffer_ref", [SUB1, x], {}, ([SUB1, x], {})),
            ("file_object_ref", [SUB1, x], {}, ([SUB1, x], {})),
            ("copy_to", [x, y, 7], {}, ([x, y, 7], {})),
            ("wait_actor_pool_recovered", [SUB1, MAIN], {}, ([SUB1, MAIN], {})),
            ("wait_actor_pool_recovered", [SUB1], {}, ([SUB1, None], {})),
            ("get_pool_config", [SUB1], {}, ([SUB1], {})),
        ]
        name, a, k, (wa, wk) = table[op]
        st, v = attempt(it, lambda: it.call(mod.defs[name], list(a), list(k.items())))
        if st == "ok" and isinstance(v, Coro):
            st, v = attempt(it, lambda v=v: it.await_(v))
        it.claim(st == "ok" and freeze(v) == T("result", name), f"the result of {name} is lost")
        it.claim(len(log) == 1 and log[0][1] == name, f"{name} does something else")
        if len(log) == 1:
            m = ctx.prog.method(ctx.prog.module("context").defs["BaseActorContext"], name, required=False)
            ps = m.params[1:] if m is not None else []

            def bound(a, k):
                if m is None or m.node.args.vararg:
                    return list(map(it.fz, a)), {n: it.fz(v) for n, v in k.items() if v is not None}
                d = dict(zip(ps, a))
                d.update(k)
                return {n: it.fz(v) for n, v in d.items() if v is not None}
            it.claim(bound(log[0][2], log[0][3]) == bound(wa, wk), f"{name} passes other arguments than given")
    Sc(ctx, "api", mod.defs["create_actor"]).run("every operation", go)


def _methods(ctx):
    core = ctx.prog.module("core").defs
    cls = core["ActorRefMethod"]

    def go(it):
        log = []
        it.stubs["core.get_context"] = it.stubs["context.get_context"] = lambda it, a, k: spy(it, log, "context")
        r = ref(it, SUB1, A)
        m = it.attr(r, "method")
        opt = outcome(it, "options", True, False)
        x, y, prof = V("x"), V("y"), V("profiling context")
        if opt:
            m = it.call(it.attr(m, "options"), [], [("profiling_context", prof)])
        how = outcome(it, "how", "call", "send", "tell", "tell later", "tell later, and it fails")
        if how.startswith("tell later"):
            slept = []
            it.stubs["asyncio.sleep"] = lambda it, a, k: Coro(lambda: slept.append((a[0], len(log))), "sleep")
            if "fails" in how:
                e = outcome(it, "error", "ConnectionRefusedError", "ValueError")
                ignore = outcome(it, "ignored", True, False)
                it.stubs["core.get_context"] = it.stubs["context.get_context"] = lambda it, a, k: Stub("context", methods={"send": lambda it, a, k: it.raise_(e)})
                t = it.call(it.attr(m, "tell_delay"), [x], [("k", y), ("delay", 3), ("ignore_conn_fail", ignore)])
                st, v = attempt(it, lambda: it.await_(t))
                it.claim((st == "ok") == (ignore and e == "ConnectionRefusedError"), "an error of a delayed call is lost, or one that is to be ignored is raised")
                return
            t = it.call(it.attr(m, "tell_delay"), [x], [("k", y), ("delay", 3)])
            it.await_(t)
            it.claim(slept == [(3, 0)], "a delayed call is not sent after its delay")
        elif how == "call":
            it.await_(it.call(it.attr(m, "__call__"), [x], [("k", y)]))
        else:
            it.await_(it.call(it.attr(m, how), [x], [("k", y)]))
        it.claim(len(log) == 1 and log[0][1] == "send", "a method call is not sent once")
        if len(log) != 1:
            return
        _, _, a, k = log[0]
        it.claim(a[0] is r, "a method call goes to another actor")
        msg = list(it.iterate(a[1]))
        it.claim(msg[0] == "method" and len(msg) == 4 and msg[1] == it.glob(ctx.prog.module("core"), "CALL_METHOD_DEFAULT"), "another method is called")
        it.claim([q for q in it.iterate(msg[2])] == [x] and dict(items_of(msg[3])) == {"k": y}, "a method is called with other arguments than given")
        it.claim(k.get("wait_response", True) is (not how.startswith("tell")), "a call is sent with another wait mode than asked for")
        it.claim(k.get("profiling_context") is (prof if opt else None), "the options of a call are lost")
    Sc(ctx, "methods", ctx.method(cls, "__call__")).run("calling a method of a reference", go)

    def destroy(it):
        log = []
        it.stubs["core.get_context"] = it.stubs["context.get_context"] = lambda it, a, k: spy(it, log, "context")
        r = ref(it, SUB1, A)
        v = it.await_(it.call(it.attr(r, "destroy"), [], []))
        it.claim(len(log) == 1 and log[0][1] == "destroy_actor" and log[0][2] == [r] and freeze(v) == T("result", "destroy_actor"), "destroying by a reference destroys something else")
    Sc(ctx, "methods", ctx.method(core["ActorRef"], "destroy")).run("destroying by a reference", destroy)

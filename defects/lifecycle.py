"""Shows the lifecycle defects repaired in /repo (run with /opt/venv/bin/python on a built tree).
Prints one line per defect: ok / BROKEN."""
import asyncio, os, sys
import xoscar as mo
from xoscar.backends.indigen.pool import MainActorPool
from xoscar.backends.pool import MainActorPoolBase
from xoscar.backends.router import Router
from xoscar.core import create_actor_ref
from xoscar.backends.allocate_strategy import IdleLabel, AddressSpecified

def out(name, ok):
    print(f"{name}: {'ok' if ok else 'BROKEN'}", flush=True)

class BadPost(mo.Actor):
    fail = True
    async def __post_create__(self):
        if BadPost.fail:
            raise ValueError("post")
    def hi(self): return "hi"

class BadDestroy(mo.Actor):
    async def __pre_destroy__(self):
        raise ValueError("pre")
    def hi(self): return "hi"

class Multi(mo.Actor):
    async def c(self, x): return x
    async def run(self):
        return 1, self.c("a"), 2, self.c("b")

class Plain(mo.Actor):
    def __init__(self, x=0): self.x = x
    def get(self): return self.x

class Slow(mo.Actor):
    async def __post_create__(self):
        await asyncio.sleep(1)

async def main():
    pool = await mo.create_actor_pool("127.0.0.1", n_process=1, labels=["m", "s"])
    addr = pool.external_address
    sub = pool._config.get_external_addresses()[1]
    try:
        r = await mo.create_actor(Multi, uid="multi", address=sub)
        try:
            res = await r.run()
        except BaseException as e:
            res = e
        out("tuple positions", res == (1, "a", 2, "b"))

        try: await mo.create_actor(BadPost, uid="bp", address=addr)
        except ValueError: pass
        out("failed post create (main)", not await mo.has_actor(create_actor_ref(addr, b"bp")) and b"bp" not in pool._actors)
        try: await mo.create_actor(BadPost, uid="bps", address=sub)
        except ValueError: pass
        out("failed post create (sub) not recorded", not await mo.has_actor(create_actor_ref(addr, b"bps")))

        d = await mo.create_actor(BadDestroy, uid="bd", allocate_strategy=AddressSpecified(sub), address=addr)
        try: await mo.destroy_actor(create_actor_ref(addr, b"bd"))
        except ValueError: pass
        out("failed destroy keeps record", await mo.has_actor(create_actor_ref(addr, b"bd")))
        d2 = await mo.create_actor(Plain, uid="pl", address=sub)
        await mo.destroy_actor(d2)
        out("destroyed via sub is forgotten", not await mo.has_actor(create_actor_ref(addr, b"pl")))

        # placeholder
        class Fail: pass
        orig = pool.call
        async def bad(*a, **k): raise ConnectionError("x")
        import types
        MainActorPool.call, old = bad, MainActorPool.call
        from xoscar.backends.message import CreateActorMessage, new_message_id
        m = CreateActorMessage(new_message_id(), Plain, b"zz", (), {}, AddressSpecified(sub))
        await pool.create_actor(m)
        MainActorPool.call = old
        out("placeholder released", all(k is not None and not type(k) is object for k in pool._allocated_actors[sub]))

        # idle slots with several creations in progress
        st = IdleLabel("s", "mk")
        t1 = asyncio.create_task(mo.create_actor(Slow, uid="s1", allocate_strategy=st, address=addr))
        await asyncio.sleep(0.2)
        t2 = asyncio.create_task(mo.create_actor(Plain, uid="s2", allocate_strategy=AddressSpecified(sub), address=addr))
        await asyncio.sleep(0.2)
        try:
            await mo.create_actor(Plain, uid="s3", allocate_strategy=st, address=addr)
            ok = False
        except Exception as e:
            ok = type(e).__name__ == "NoIdleSlot"
        out("idle slot exclusive", ok)
        await t1; await t2

        new = await pool.append_sub_pool()
        try:
            await mo.create_actor(Plain, uid="ap", allocate_strategy=AddressSpecified(new), address=addr)
            ok = True
        except KeyError:
            ok = False
        out("create on appended pool", ok)
        if ok:
            await pool.remove_sub_pool(new)
            out("removed pool forgotten", not await mo.has_actor(create_actor_ref(addr, b"ap")))

        a, b = MainActorPoolBase.process_index_gen("x"), os.getpid
        MainActorPoolBase._process_index_gen = iter([0, 1])
        os.getpid = lambda: 200
        x = next(a)
        os.getpid = lambda: 100
        import itertools
        MainActorPoolBase._process_index_gen = iter([1])
        y = next(MainActorPoolBase.process_index_gen("x"))
        os.getpid = b
        out("process indexes distinct", x != y)
    finally:
        await pool.stop()
asyncio.run(main())

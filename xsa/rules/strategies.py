"""C28: where actors are placed; by abstract interpretation of every strategy over configurations of up to three pools with
every labelling, after pools were moved or removed, over every choice a random strategy can make."""
from ..world import *
from .lifecycle import *
from .records import *

SUB3 = "sub:3"


class Conf:
    def __init__(self, it, labelled=True):
        cls = it.prog.module("backends.config").defs["ActorPoolConfig"]
        self.it = it
        self.c = it.call(cls, [], [])
        n = outcome(it, "sub pools", 0, 1, 2)
        self.pools = []  # (index, address, label)
        lay = outcome(it, "labels", ("x", "x", "x"), ("y", "x", "x"), (None, "y", "x")) if labelled == "few" else None
        for i, a in enumerate((MAIN, SUB1, SUB2)[:n + 1]):
            lab = lay[i] if lay else outcome(it, f"label of pool {i}", "x", "y", None) if labelled else None
            # a pool may listen at more than one address, the first one stands for it
            many = i == 1 and not labelled
            self.add(100 + i, a, lab, Seq("list", [a, "also:" + a]) if many else a)
        if n and outcome(it, "afterwards", "nothing", "a pool moves" if n == 1 else "a pool is removed") != "nothing":
            if n == 1:
                it.call(it.attr(self.c, "reset_pool_external_address"), [101, SUB3], [])
                self.pools[1] = (101, SUB3, self.pools[1][2])
            else:
                it.call(it.attr(self.c, "remove_pool_config"), [101], [])
                del self.pools[1]

    def add(self, i, a, lab, given):
        self.it.call(self.it.attr(self.c, "add_pool_conf"), [i, lab, f"int:{i}", given], [])
        self.pools.append((i, a, lab))

    @property
    def addrs(self):
        return [a for _, a, _ in self.pools]

    def labelled(self, lab):
        return [a for _, a, l in self.pools if lab is None or l == lab]


def randoms(it):
    def pick(it, a, k):
        xs = list(it.iterate(a[0]))
        if not xs:
            it.raise_("IndexError", "Cannot choose from an empty sequence")
        return xs[outcome(it, "random choice", *range(len(xs)))]

    def num(lo, hi):
        if hi <= lo:
            it.raise_("ValueError", "empty range")
        return outcome(it, "random choice", *range(lo, hi))
    it.stubs["random.choice"] = pick
    it.stubs["random.choices"] = lambda it, a, k: Seq("list", [pick(it, a, k)])
    it.stubs["random.sample"] = lambda it, a, k: Seq("list", [pick(it, a, k)])
    it.stubs["random.randrange"] = lambda it, a, k: num(*(a if len(a) > 1 else (0, a[0])))
    it.stubs["random.randint"] = lambda it, a, k: num(a[0], a[1] + 1)


def strategies(ctx: Ctx):
    mod = ctx.prog.module("backends.allocate_strategy").defs

    def check(it, conf, name, args, allowed, alloc=None, err=None):
        randoms(it)
        s = it.call(mod[name], args, [])
        st, v = attempt(it, lambda: it.call(it.attr(s, "get_allocated_address"), [conf.c, alloc if alloc is not None else Dct()], []))
        if allowed:
            it.claim(st == "ok" and v in allowed, "the address chosen is not one the strategy allows")
        else:
            it.claim(st == "raise", "an address is chosen although none is allowed")
            it.claim(err is None or st != "raise" or err_is(it, v, err), "that no address is allowed is not reported as such")

    def run(name, title, go):
        Sc(ctx, "strategy", ctx.method(mod[name], "get_allocated_address")).run(title, go, max_paths=8000)

    def address(it):
        c = Conf(it, False)
        check(it, c, "AddressSpecified", [SUB1], [SUB1])
    run("AddressSpecified", "a given address", address)

    def main(it):
        c = Conf(it, False)
        check(it, c, "MainPool", [], [MAIN])
    run("MainPool", "the main pool", main)

    def rnd(it):
        c = Conf(it, False)
        check(it, c, "Random", [], c.addrs)
    run("Random", "any pool", rnd)

    def sub(it):
        c = Conf(it, False)
        check(it, c, "RandomSubPool", [], c.addrs[1:])
    run("RandomSubPool", "any sub pool", sub)

    def index(it):
        c = Conf(it, False)
        i = outcome(it, "index", 0, 1, 2)
        check(it, c, "ProcessIndex", [i], c.addrs[i:i + 1])
    run("ProcessIndex", "the pool of an index", index)

    def label(it):
        c = Conf(it)
        check(it, c, "RandomLabel", ["x"], c.labelled("x"))
    run("RandomLabel", "any pool with a label", label)

    def same(it):
        cls = mod["IdleLabel"]
        l1, l2, m1, m2 = (outcome(it, n, "x", "y", None) for n in ("label", "other label", "mark", "other mark"))
        x, y = it.call(cls, [l1, m1], []), it.call(cls, [l2, m2], [])
        eq = (l1, m1) == (l2, m2)
        it.claim(it.truth(it.call(it.attr(x, "__eq__"), [y], [])) is eq, "slots of the same label and mark differ, or others are the same")
        h = [freeze(it.call(it.attr(z, "__hash__"), [], [])) for z in (x, y)]
        it.claim(not eq or h[0] == h[1], "equal slots hash differently")
        o = it.call(it.attr(x, "__eq__"), [strategy(it, MAIN)], [])
        it.claim(o is NotImplemented or not it.truth(o), "a slot equals another strategy")
    Sc(ctx, "strategy", ctx.method(mod["IdleLabel"], "__eq__")).run("equality of slots", same)

    def idle(it):
        c = Conf(it, "few")
        lab = outcome(it, "label asked for", "x", None)
        mark, others = outcome(it, "mark asked for", ("m", ("other", None)), (None, ("other", "m")))
        free, alloc = [], Dct()
        for a in c.addrs:
            n = outcome(it, f"allocated at {a}", "nothing", "the slot", "something else", "something else and the slot") if a in c.labelled(lab) else "nothing"
            taken = it.call(mod["IdleLabel"], [lab, mark], [])
            other = [strategy(it, a), *(it.call(mod["IdleLabel"], [lab, x], []) for x in others), it.call(mod["IdleLabel"], ["other", mark], [])]
            other = other if "something" in n else []
            xs = other[:1] + ([taken] if "the slot" in n else []) + other[1:]
            if n != "nothing":
                it.setitem(alloc, a, Dct([(T("actor", a, i), Seq("tuple", [x, None])) for i, x in enumerate(xs)]))
            if a in c.labelled(lab) and "the slot" not in n:
                free.append(a)
        check(it, c, "IdleLabel", [lab, mark], free, alloc, "NoIdleSlot")
    run("IdleLabel", "an idle pool with a label", idle)

    cls = ctx.prog.module("backends.pool").defs["MainActorPoolBase"]

    def both(it):
        """two creations that overlap do not get the same slot, and a slot is free again when its creation failed"""
        w = World(it, cls)
        mk = lambda: it.call(mod["IdleLabel"], [None, "m"], [])
        gone = []
        fails = outcome(it, "first creation", "succeeds", "fails")

        def script(addr, x):
            gone.append(addr)
            it.pause()
            if x.attrs["actor_id"] == A and fails == "fails":
                return w.error(x, "ValueError")
            return None
        w.script = script
        # the main pool has the slot already
        rec = w.p.attrs["_allocated_actors"]
        for a in (MAIN, SUB2):
            it.setitem(dget(rec, a), T("holder", a), Seq("tuple", [mk(), None]))
        ms = [create_msg(it, w.act, u, SUB1, strat=mk()) for u in (A, C)]
        ts = [it.spawn(it.call(it.attr(w.p, "create_actor"), [m], []), "create") for m in ms]
        rs = [attempt(it, lambda t=t: it.await_(t)) for t in ts]
        it.claim(gone == [SUB1], "two creations that overlap get the same slot")
        st, v = rs[1]
        it.claim(st == "raise" or is_msg(v, "ErrorMessage"), "that no slot is free is not reported")
        third = create_msg(it, w.act, B, SUB1, strat=mk())
        st, v = attempt(it, lambda: ask(it, w.p, "create_actor", third)[1])
        it.claim((gone == [SUB1, SUB1]) == (fails == "fails"), "a slot stays taken after its creation failed, or is given twice")
    Sc(ctx, "slots", ctx.method(cls, "create_actor")).run("creations that overlap", both)

    f = ctx.method(cls, "process_index_gen")

    def indexes(it):
        pid = [outcome(it, "process id", 7, 4711, 1 << 21)]
        it.stubs["os.getpid"] = lambda it, a, k: pid[0]
        n = [0]

        def take():
            g = it.call(it.attr(cls, "process_index_gen"), [MAIN], [])
            out = []
            for x in range(ctx.more(3, 8)):
                out.append(it.call(("builtin", "next"), [g], []))
            return out
        seen = take() + take()
        it.claim(all(isinstance(x, int) for x in seen) and len(set(seen)) == len(seen), "two pools get the same process index")
        pid[0] += outcome(it, "other process", 1, 2)
        # another process counts from the start, or goes on when it was forked
        it.clskeep.clear()
        late = take()
        it.claim(not set(late) & set(seen), "two processes get the same process index")
    Sc(ctx, "indexes", f).run("process indexes", indexes)

    g = ctx.prog.module("backends.config").defs["ActorPoolConfig"]

    def lookups(it):
        c = Conf(it, False)
        for i, a, _ in c.pools:
            st, v = attempt(it, lambda: it.call(it.attr(c.c, "get_process_index"), [a], []))
            it.claim(st == "ok" and v == i, "the index of a pool is not found by its address")
            it.claim(it.call(it.attr(c.c, "get_external_address"), [i], []) == a, "the address of a pool is not found by its index")
        st, v = attempt(it, lambda: it.call(it.attr(c.c, "get_process_index"), ["nowhere"], []))
        it.claim(st == "raise", "an unknown address has an index")
        it.claim(list(it.iterate(it.call(it.attr(c.c, "get_process_indexes"), [], []))) == [i for i, _, _ in c.pools], "the indexes of the pools are not given in their order")
        it.claim(list(it.iterate(it.call(it.attr(c.c, "get_external_addresses"), [], []))) == c.addrs, "the addresses of the pools are not given in their order")
    Sc(ctx, "config", ctx.method(g, "get_process_index")).run("indexes and addresses", lookups)

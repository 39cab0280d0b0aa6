"""Running machine scenarios inside a rule."""
import os
import traceback

from .common import *
from ..world import *  # noqa: F401,F403
from ..machine import Machine, run_scenarios  # noqa: F401

HERE = os.path.dirname(os.path.abspath(__file__))
# errors that may also mean that the interpreter does not know a form
UNCLEAR = ("AttributeError", "TypeError", "NameError", "UnboundLocalError", "NotImplementedError", "ImportError", "ModuleNotFoundError", "RecursionError")


class Sc:
    """One scenario family: enumerates every combination of environment outcomes and collects verdicts."""

    def __init__(self, ctx, rule, func):
        self.ctx, self.rule, self.func = ctx, rule, func
        ctx.modules.add(func.module.rel)

    def _paths(self, body, max_paths, setup, limit):
        g = run_scenarios(self.ctx.prog, body, max_paths=max_paths * self.ctx.more(1, 10), setup=setup, limit=limit)
        while True:
            try:
                x = next(g)
            except StopIteration:
                return
            except Exception as e:
                if os.environ.get("XSA_DEBUG"):
                    raise
                at = traceback.extract_tb(e.__traceback__)[-1]
                if "'NoneType' object" in str(e) and os.path.dirname(at.filename) == HERE:     # nothing, where the scenario got something
                    x = None, ("nothing", at.line)
                else:  # a form the scenario does not know
                    x = None, ("stuck", f"{type(e).__name__}: {e}")
            yield x

    def run(self, name, scenario, max_paths=600, raises_ok=None, halt_ok=False, setup=None, limit=200000):
        """scenario(it) -> list of (condition, message) or None; may also call it.claim(cond, msg)."""
        ctx, n, bad, seen = self.ctx, 0, 0, set()

        def body(it):
            it.claims = []
            it.outcomes = []
            it.claim = lambda c, m: it.claims.append((c, m))
            base_stubs(it)
            return scenario(it)
        for it, r in self._paths(body, max_paths, setup, limit):
            n += 1
            if r[0] == "stuck":
                ctx.undecided(self.rule, f"{self.func.short}: {name}", r[1])
                return
            if r[0] == "nothing":
                ctx.bad(self.rule, f"{self.func.short}: {name}", self.func.where, f"nothing is found where a value is due ({r[1]})")
                return
            claims = list(it.claims)
            if r[0] == "raise" and raises_ok is None and all(c for c, _ in claims):
                if exc_text(r[1]) in UNCLEAR:
                    ctx.undecided(self.rule, f"{self.func.short}: {name}", f"{exc_text(r[1])} in the scenario")
                    return
                claims.append((False, f"{exc_text(r[1])} is raised where nothing fails"))
            if r[0] == "ok" and r[1]:
                claims += r[1]
            if r[0] == "raise" and raises_ok is False:
                claims.append((False, f"{exc_text(r[1])} escapes"))
            if r[0] == "deadlock":
                claims.append((False, "never completes"))
            if r[0] == "halt" and not halt_ok:
                claims.append((False, "does not end"))
            for c, m in claims:
                if not c and m not in seen:
                    seen.add(m)
                    bad += 1
                    path = [f"{k[1]}={c2}" for k, c2, _ in it.taken if isinstance(k, tuple) and k[0] == "fault"]
                    outs = [str(x) for x in getattr(it, "outcomes", [])]
                    ctx.bad(self.rule, f"{self.func.short}: {name}", self.func.where, m + (f" (environment: {', '.join(outs or path)})" if outs or path else ""))
        ctx.anchors["scenario paths"] = ctx.anchors.get("scenario paths", 0) + n
        if not bad:
            ctx.ok(self.rule, f"{self.func.short}: {name}", f"{n} paths")


def exc_text(x):
    v = x.value
    return f"{getattr(v, 'name', None) or (v.cls.name if isinstance(v, Obj) else v)}"


def outcome(it, key, *outs):
    """Nondeterministic outcome, recorded for the report."""
    o = it.fault(key, *outs)
    it.outcomes.append(f"{key}: {o}")
    return o


def attempt(it, fn):
    """('ok', value) or ('raise', exception value) of fn()."""
    try:
        return "ok", fn()
    except Raised as x:
        return "raise", it.excval(x.value)


def ask(it, pool, name, msg):
    """outcome of a handler of the pool"""
    return attempt(it, lambda: it.await_(it.call(it.attr(pool, name), [msg], [])))


def is_msg(v, name):
    return isinstance(v, Obj) and v.cls.name == name


def err_name(v):
    """class name of the error an ErrorMessage carries"""
    e = v.attrs.get("error") if isinstance(v, Obj) else v
    return cname(e)


def err_is(it, v, name):
    from ..machine import exc_names
    e = v.attrs.get("error") if is_msg(v, "ErrorMessage") else v
    try:
        return e is not None and name in exc_names(it.prog, e)
    except Exception:
        return cname(e) == name


def items_of(d):
    from ..machine import unkey
    return [(unkey(k), v) for k, v in d.items.items()] if isinstance(d, Dct) else []


def dget(d, k):
    for kk, v in items_of(d):
        if kk == k or isinstance(kk, Obj) and isinstance(k, Obj) and freeze(kk) == freeze(k):
            return v
    return None

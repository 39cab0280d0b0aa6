"""Rule framework: obligations and access to the program."""

import ast  # noqa: F401

from .model import AnalysisError, ClassInfo, Func, Module, Program  # noqa: F401


class Ctx:
    def __init__(self, prog, prop, tier="quick"):
        self.prog = prog
        self.prop = prop
        self.tier = tier
        self.obls = []     # dicts
        self.open = []
        self.anchors = {}
        self.modules = set()

    def more(self, quick, thorough):
        """A bound of the exploration, larger in the thorough tier."""
        return thorough if self.tier == "thorough" else quick

    # -- reporting
    def ok(self, rule, construct, detail=""):
        self.obls.append({"rule": rule, "construct": construct, "ok": True, "detail": detail})

    def bad(self, rule, construct, where, msg, path=None):
        self.obls.append({"rule": rule, "construct": construct, "ok": False, "where": where, "msg": msg,
                          "path": path.brief() if hasattr(path, "brief") else (path or "")})

    def check(self, cond, rule, construct, where, msg, path=None, detail=""):
        if cond:
            self.ok(rule, construct, detail)
        else:
            self.bad(rule, construct, where, msg, path)
        return bool(cond)

    def undecided(self, rule, construct, reason):
        """An obligation outside what the analysis can follow: reported, not judged."""
        self.open.append({"rule": rule, "construct": construct, "reason": reason})

    def need(self, items, what, n=1):
        """Anchor instance count: fewer than confirmed means the analysis is blind."""
        items = list(items)
        self.anchors[what] = len(items)
        if len(items) < n:
            raise AnalysisError(f"anchor vanished: {what}: found {len(items)}, need {n}")
        return items

    # -- program access
    def cls(self, mod, name):
        return self.prog.cls(mod, name)

    def func(self, mod, name):
        return self.prog.func(mod, name)

    def method(self, cls, name, required=True):
        return self.prog.method(cls, name, required)

    def signature(self, tgt):
        if isinstance(tgt, Func):
            return tgt.params
        for mn in ("__init__", "__cinit__"):
            m = self.prog.method(tgt, mn, required=False)
            if m is not None:
                return m.params[1:]
        return None

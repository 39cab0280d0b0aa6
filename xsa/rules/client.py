"""Client side environment: a context whose caller is a stub that records what is sent and lets the scenario answer."""
from .lifecycle import *
from ..machine import Fut

PX = Seq("list", ["proxy:1"])


class Client:
    def __init__(self, it, answer=None):
        self.it, self.sent, self.answer = it, [], answer
        self.futs = {}
        it.stubs["Router.get_instance_or_empty"] = lambda it, a, k: Stub("router", {"external_address": "self:1"})

        def call(it, a, k):
            d = dict(zip(("router", "address", "message", "wait", "proxy_addresses"), a))
            d.update({n: v for n, v in k})
            d.setdefault("wait", True)
            d.setdefault("proxy_addresses", None)

            def run():
                self.sent.append(d)
                f = Fut("reply")
                self.futs[it.fz(d["message"].attrs.get("message_id"))] = f
                r = self.answer(d) if self.answer else None
                if r is not None:
                    self.reply(d, r)
                if d["wait"] is False:
                    return f
                return it.await_(f)
            return Coro(run, "call")
        # the error itself; that its decorated copy is an instance of its class is decided for C03/C05
        it.stubs["ErrorMessage.as_instanceof_cause"] = lambda it, a, k: a[0].attrs["error"]
        it.stubs["backends.core.ActorCaller"] = lambda it, a, k: Stub("caller", methods={"call": call, "cancel_tasks": lambda it, a, k: None})
        self.ctx = it.call(it.prog.module("backends.context").defs["IndigenActorContext"], ["self:1"], [])

    def reply(self, d, r):
        f = self.futs[self.it.fz(d["message"].attrs.get("message_id"))]
        if isinstance(r, Exc):
            self.it.finish(f, "error", r)
        else:
            self.it.finish(f, "done", r)

    def ok(self, d, value):
        return message(self.it, "ResultMessage", message_id=d["message"].attrs.get("message_id"), result=value)

    def err(self, d, name, *args):
        it = self.it
        mod = it.prog.module("errors").defs
        e = it.call(mod[name], list(args) or ["x"], []) if name in mod else Exc(name, list(args) or ["x"])
        return message(it, "ErrorMessage", message_id=d["message"].attrs.get("message_id"), address="remote", pid=1, error_type=None, error=e, traceback=None)

    def op(self, name, *a, **k):
        return self.it.call(self.it.attr(self.ctx, name), list(a), list(k.items()))

    def of(self, cls):
        return [d for d in self.sent if is_msg(d["message"], cls)]

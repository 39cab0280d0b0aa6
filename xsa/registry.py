"""Which rule functions decide which property."""
RULES = {
    "C01": [("replies", "replies")],
    "C02": [("answers", "answers"), ("channels", "closing"), ("stopping", "_caller")],
    "C03": [("raised", "raised")],
    "C04": [("mutex", "mutex"), ("results", "driver")],
    "C05": [("wire", "wire")],
    "C06": [("frames", "frames"), ("channels", "channels"), ("channels", "device")],
    "C07": [("serializers", "serializers")],
    "C08": [("lifecycle", "lifecycle")],
    "C09": [("records", "records")],
    "C10": [("topology", "topology")],
    "C11": [("recovery", "recovery")],
    "C12": [("cancel", "cancel")],
    "C13": [("redirect", "redirect")],
    "C14": [("stopping", "stopping")],
    "C15": [("processes", "processes")],
    "C16": [("clients", "clients")],
    "C17": [("proxies", "proxies"), ("redirect", "_wrap")],
    "C18": [("copies", "copies"), ("contexts", "_client")],
    "C19": [("batching", "batching"), ("localrefs", "batches")],
    "C20": [("generators", "generators")],
    "C21": [("refs", "refs"), ("localrefs", "apart"), ("localrefs", "ids")],
    "C22": [("dispatch", "dispatch")],
    "C23": [("metrics", "metrics")],
    "C24": [("diagnostics", "diagnostics")],
    "C25": [("requirements", "requirements")],
    "C26": [("loop", "loop")],
    "C27": [("collectives", "collectives")],
    "C28": [("strategies", "strategies")],
    "C29": [("contexts", "contexts"), ("localrefs", "localrefs")],
    "C30": [("results", "results"), ("localrefs", "localrefs")],
    "C31": [("creation", "creation")],
    "C32": [("connect", "connect")],
    "C33": [("wrappers", "wrappers")],
    "C34": [("identities", "identities")],
    "C35": [("schemes", "schemes"), ("contexts", "_client")],
    "C36": [("helpers", "helpers")],
}
DOC = {}
ASSUMPTIONS = [
    "Dynamic features that would bypass the source (monkey patching, setattr with computed names) are not used to change the analysed functions.",
    "Functions of the standard library behave as documented and fail only where a scenario says so.",
    "Cancellation is delivered only at await/yield points.",
]

"""C25: what is installed is what was required, by abstract interpretation of the processing of requirement lists; the
parser of requirements, the markers and the installer are the environment's."""
import json
import re

from .records import *
import ast as A  # noqa: E402

STD = ("python_version", "sys_platform", "os_name")
REQ = re.compile(r"^\s*([A-Za-z][A-Za-z0-9._-]*)\s*(?:\[([^\]]*)\])?\s*(?:@\s*(\S+)|([<>=!~][^;@]*))?\s*(?:;(.*))?$")


def parts(text):
    """(name, extras, specifiers, url) of a requirement, or None; any way of writing it gives the same"""
    m = isinstance(text, str) and REQ.match(text)
    if not m:
        return None
    spec = frozenset(x.strip().replace(" ", "") for x in (m[4] or "").split(",") if x.strip())
    return m[1].lower(), frozenset(x.strip() for x in (m[2] or "").split(",") if x.strip()), spec, m[3]


def marker_ok(text):
    """the names a standard marker uses, or None if it is not one"""
    if "#" in text:
        return None
    try:
        t = A.parse(text.strip(), mode="eval")
    except SyntaxError:
        return None
    names = [n.id for n in A.walk(t) if isinstance(n, A.Name)]
    return names if all(n in STD for n in names) and all(isinstance(n, (A.Expression, A.BoolOp, A.Compare, A.Name, A.Constant, A.boolop, A.cmpop, A.expr_context)) for n in A.walk(t)) and isinstance(t.body, (A.BoolOp, A.Compare)) else None


class Pip:
    """packaging, as far as requirements go"""

    def __init__(self, it, env):
        self.it, self.env = it, env
        ex = it.exts
        ex["packaging.requirements.Requirement"] = Native(self.requirement, "Requirement")
        ex["packaging.markers.Marker"] = Native(lambda it, a, k: self.marker(a[0], "InvalidMarker"), "Marker")
        ex["packaging.markers.default_environment"] = Native(lambda it, a, k: Dct([(k, v) for k, v in env.items() if k in STD]), "default_environment")
        ex["packaging.version.Version"] = Native(self.version, "Version")
        ex["ast.parse"] = Native(lambda it, a, k: self.node(self.syntax(a[0])), "ast.parse")
        ex["json.dumps"] = Native(lambda it, a, k: json.dumps(list(it.iterate(a[0])) if isinstance(a[0], Seq) else a[0]), "json.dumps")
        regex(it)
        ex["ast.dump"] = Native(lambda it, a, k: "dump", "ast.dump")
        ops = {"eq": A.Eq, "ne": A.NotEq, "lt": A.Lt, "le": A.LtE, "gt": A.Gt, "ge": A.GtE}
        for n, op in ops.items():
            ex["operator." + n] = Native(lambda it, a, k, op=op: self.cmp(op, a[0], a[1]), n)
        ex["operator.not_"] = Native(lambda it, a, k: not it.truth(a[0]), "not_")
        m = it.prog.module("virtualenv.core")
        it.mods[(m.name, "STANDARD_ENV_VARS")] = Seq("set", list(STD))
        it.stubs["virtualenv.core.get_env"] = lambda it, a, k: Dct(list(env.items()))

    def cmp(self, op, x, y):
        u = lambda v: v.attrs["key"] if isinstance(v, Stub) and "key" in v.attrs else v  # noqa: E731
        fn = {A.Eq: lambda p, q: p == q, A.NotEq: lambda p, q: p != q, A.Lt: lambda p, q: p < q, A.LtE: lambda p, q: p <= q, A.Gt: lambda p, q: p > q, A.GtE: lambda p, q: p >= q}[op]
        try:
            return fn(u(x), u(y))
        except TypeError:
            self.it.raise_("TypeError")

    def version(self, it, a, k):
        try:
            key = tuple(int(x) for x in a[0].split(".") if x)
        except (ValueError, AttributeError):
            it.raise_("InvalidVersion")
        while key and key[-1] == 0:
            key = key[:-1]
        o = Stub(f"version {a[0]}", {"key": key, "text": a[0]}, kind="Version")
        for n, op in (("__eq__", A.Eq), ("__lt__", A.Lt), ("__le__", A.LtE), ("__gt__", A.Gt), ("__ge__", A.GtE), ("__ne__", A.NotEq)):
            o.methods[n] = lambda it, a, k, op=op: self.cmp(op, o, a[0])
        return o

    def syntax(self, text):
        try:
            return A.parse(text, mode="eval")
        except SyntaxError:
            self.it.raise_("SyntaxError")

    def node(self, n):
        if isinstance(n, list):
            return Seq("list", [self.node(x) for x in n])
        if isinstance(n, A.AST):
            o = Stub(type(n).__name__, {f: self.node(v) for f, v in A.iter_fields(n)}, kind=type(n).__name__)
            o.attrs["__class__"] = ("ext", "ast." + type(n).__name__)
            return o
        return n

    def marker(self, text, err):
        it = self.it
        names = marker_ok(text)
        if names is None:
            it.raise_(err)
        t = A.parse(text.strip(), mode="eval").body

        def nodes(t):
            if isinstance(t, A.BoolOp):
                out = []
                for x in t.values:
                    out += ["and" if isinstance(t.op, A.And) else "or"] if out else []
                    out.append(Seq("list", nodes(x)) if isinstance(x, A.BoolOp) else nodes(x)[0])
                return out
            sides = [Stub("side", {"value": getattr(x, "id", getattr(x, "value", None))}, {"__str__": lambda it, a, k, x=x: getattr(x, "id", getattr(x, "value", None))}) for x in (t.left, t.comparators[0])]
            return [Seq("tuple", [sides[0], Stub("op"), sides[1]])]

        def value(t):
            if isinstance(t, A.BoolOp):
                return (all if isinstance(t.op, A.And) else any)([value(x) for x in t.values])
            v = [self.env.get(x.id) if isinstance(x, A.Name) else x.value for x in (t.left, t.comparators[0])]
            if not names:
                it.raise_("UndefinedEnvironmentName")
            v = [tuple(int(q) for q in x.split(".")) if re.fullmatch(r"[\d.]+", str(x)) else x for x in v]
            return self.cmp(type(t.ops[0]), *v)
        return Stub("marker", {"_markers": Seq("list", nodes(t))}, {"evaluate": lambda it, a, k: value(t)})

    def requirement(self, it, a, k):
        m = REQ.match(a[0])
        if not m:
            it.raise_("InvalidRequirement")
        name, extras, spec, url = parts(a[0])
        sp = ",".join(sorted(spec))
        mk = self.marker(m[5], "InvalidRequirement") if m[5] is not None else None

        def holds(it, a, k):
            v = a[0].attrs["key"] if isinstance(a[0], Stub) else tuple(int(q) for q in a[0].split("."))
            ok = {">=": lambda p, q: p >= q, "<=": lambda p, q: p <= q, "==": lambda p, q: p == q, "!=": lambda p, q: p != q, "<": lambda p, q: p < q, ">": lambda p, q: p > q}
            for c in spec:
                op = re.match(r"[<>=!]+", c)[0]
                q = tuple(int(z) for z in c[len(op):].split("."))
                while q and q[-1] == 0:
                    q = q[:-1]
                if not ok[op](v, q):
                    return False
            return True
        s = Stub("specifier", {"text": sp}, {"__str__": lambda it, a, k: sp, "__len__": lambda it, a, k: len(spec), "__contains__": holds, "contains": holds})
        o = Stub("requirement", {"name": m[1], "extras": Seq("set", sorted(extras)), "specifier": s, "url": url, "marker": mk})

        def text(it, a, k):
            at = o.attrs
            e = sorted(it.iterate(at["extras"]))
            out = at["name"] + (f"[{','.join(e)}]" if e else "")
            out += it.x_builtin("str", [at["specifier"]], {}, []) if at["url"] is None else f" @ {at['url']}"
            return out + (f" ;{m[5]}" if at["marker"] is not None else "")
        o.methods["__str__"] = text
        return o


def regex(it):
    """re, on strings"""
    def wrap(m):
        return m and Stub("match", {"lastindex": m.lastindex}, {"group": lambda it, a, k: m.group(*a), "groups": lambda it, a, k: Seq("tuple", list(m.groups())), "__getitem__": lambda it, a, k: m[a[0]],
                                                                "groupdict": lambda it, a, k: Dct(list(m.groupdict().items())), "start": lambda it, a, k: m.start(*a), "end": lambda it, a, k: m.end(*a), "__bool__": lambda it, a, k: True})

    def sub(r, it, a, k):
        return r.sub(a[0] if isinstance(a[0], (str, bytes)) else lambda m: it.call(a[0], [wrap(m)], []), a[1])

    def methods(r):
        return {"match": lambda it, a, k: wrap(r.match(*a)), "search": lambda it, a, k: wrap(r.search(*a)), "fullmatch": lambda it, a, k: wrap(r.fullmatch(*a)), "findall": lambda it, a, k: Seq("list", [Seq("tuple", list(x)) if isinstance(x, tuple) else x for x in r.findall(*a)]),
                "finditer": lambda it, a, k: Seq("list", [wrap(m) for m in r.finditer(*a)]), "split": lambda it, a, k: Seq("list", r.split(*a)), "sub": lambda it, a, k: sub(r, it, a, k)}
    flags = lambda a, n: [x for x in a[n:] if isinstance(x, int)]  # noqa: E731
    for n, f in (("MULTILINE", re.M), ("M", re.M), ("VERBOSE", re.X), ("IGNORECASE", re.I), ("I", re.I), ("DOTALL", re.S)):
        it.exts["re." + n] = int(f)
    it.exts["re.compile"] = Native(lambda it, a, k: Stub("pattern", {"pattern": a[0]}, methods(re.compile(a[0], *flags(list(a) + [v for _, v in k], 1)))), "compile")
    for n in ("match", "search", "fullmatch", "findall", "finditer", "split"):
        it.exts["re." + n] = Native(lambda it, a, k, n=n: methods(re.compile(a[0], *flags(list(a) + [v for _, v in k], 2)))[n](it, [a[1]], []), n)
    it.exts["re.sub"] = Native(lambda it, a, k: sub(re.compile(a[0]), it, a[1:], k), "sub")


ENVS = {"cuda": {"python_version": "3.10", "sys_platform": "linux", "os_name": "posix", "has_cuda": True, "cuda_version": "12.10", "cuda_arch": "sm_100", "has_npu": False},
        "old cuda": {"python_version": "3.9", "sys_platform": "win32", "os_name": "nt", "has_cuda": True, "cuda_version": "11.8", "cuda_arch": "sm_75", "has_npu": False},
        "none": {"python_version": "3.12", "sys_platform": "linux", "os_name": "posix", "has_cuda": False, "cuda_version": None, "cuda_arch": None, "has_npu": True}}
VARS = {"engine": "vllm", "mode": 'a"b', "fast": True, "size": 10, "py": "3.10"}
BODIES = ("aa", "bb>=1.2,<2", "cc[x,y]", "dd[x]==1.0", "ee @ https://h/e.whl", "ff[y] @ https://h/f.whl")
# marker -> in which environments it holds
MARKERS = {
    None: ("cuda", "old cuda", "none"),
    'sys_platform == "linux"': ("cuda", "none"),
    'python_version >= "3.10"': ("cuda", "none"),
    'python_version >= "3.10" and sys_platform == "linux" or os_name == "nt"': ("cuda", "old cuda", "none"),
    "has_cuda": ("cuda", "old cuda"),
    "not has_cuda": ("none",),
    'has_cuda == "True"': ("cuda", "old cuda"),
    'cuda_version >= "12.9"': ("cuda",),
    'cuda_version < "12.1"': ("old cuda",),
    'cuda_version == "11.8"': ("old cuda",),
    'has_cuda and cuda_arch >= "sm_80"': ("cuda",),
    'cuda_arch < "sm_80" or has_npu': ("old cuda", "none"),
    'sys_platform == "win32" or not has_cuda and has_npu': ("old cuda", "none"),
    '"11.0" <= cuda_version < "12.0"': ("old cuda",),
    '(has_npu or has_cuda) and sys_platform == "linux"': ("cuda", "none"),
    'has_cuda and sys_platform == "linux" and cuda_version > "12.2"': ("cuda",),
    'has_cuda and sys_platform == "linux" and cuda_version > "13"': (),
    'cuda_version >= "12"': ("cuda",),
    '"11" < cuda_version < "12"': ("old cuda",),
    'cuda_version == "1.0" or has_npu or cuda_version == "11.8"': ("old cuda", "none"),
    'cuda_version > "12.10" or cuda_arch < "sm_75"': (),
    'cuda_version <= "11.8" or cuda_arch >= "sm_100"': ("cuda", "old cuda"),
    'has_cuda and cuda_version != "11.8"': ("cuda",),
    'cuda_version != "11.8"': ("cuda", "none"),
    'cuda_arch != "sm_75"': ("cuda", "none"),
    'sys_platform == "linux" or sys_platform == "win32" or has_cuda': ("cuda", "old cuda", "none"),
    '#engine# == "vllm"': ("cuda", "old cuda", "none"),
    '#engine# == "sglang"': (),
    '#engine# != "sglang" and has_cuda': ("cuda", "old cuda"),
    '#fast#': ("cuda", "old cuda", "none"),
    '#size# > 9': ("cuda", "old cuda", "none"),
    '#mode# == "a\\"b"': ("cuda", "old cuda", "none"),
    'python_version >= #py#': ("cuda", "none"),
    '#engine# == "vllm" and python_version < #py#': ("old cuda",),
}


def requirements(ctx: Ctx):
    core = ctx.prog.module("virtualenv.core")
    D, VM = core.defs, core.defs["VirtualEnvManager"]

    def filtering(it):
        name = outcome(it, "environment", *ENVS)
        Pip(it, ENVS[name])
        ms = list(MARKERS)
        m = ms[outcome(it, "marker", *range(len(ms)))]
        body = outcome(it, "requirement", *BODIES)
        sep = " ; " if "@" in body else outcome(it, "written", ";", " ; ")
        text = body if m is None else body + sep + m
        st, v = attempt(it, lambda: it.call(D["filter_requirements"], [Seq("list", ["first>=1", text, "last"])], list(VARS.items())))
        if st != "ok":
            it.claim(False, f"a list of requirements cannot be filtered: {getattr(v, 'name', v)} for {m}")
            return
        got = [parts(x) for x in it.iterate(v)]
        mid = [parts(body)] if name in MARKERS[m] else []
        if not mid and len(got) == 3 or mid and len(got) == 2:
            it.claim(False, f"a requirement is {'dropped' if mid else 'kept'} against its marker: {m}")
            return
        it.claim(got == [parts("first>=1")] + mid + [parts("last")], "requirements lose or change their name, version, extras or source, or their order")
    Sc(ctx, "requirements", D["filter_requirements"]).run("filtering", filtering, max_paths=3000)

    def wrong(it):
        Pip(it, ENVS["cuda"])
        text = outcome(it, "requirement", "", "@@", "aa;", '@@ ; sys_platform == "linux"', "@@ ; has_cuda")
        st, v = attempt(it, lambda: it.call(D["filter_requirements"], [Seq("list", ["aa", text])], []))
        it.claim(st == "raise", "a requirement that cannot be understood is skipped")
    Sc(ctx, "requirements", D["filter_requirements"]).run("wrong requirements", wrong)

    def vcs(it):
        Pip(it, ENVS[outcome(it, "environment", *ENVS)])
        url = outcome(it, "url", "git+https://h/r.git", "https://h/r.whl", "git+ssh://h/r@v1#egg=x", "svn+http://h/r", "hg+http://h/r", "git+https://h/r ; has_cuda")
        st, v = attempt(it, lambda: it.call(D["filter_requirements"], [Seq("list", ["aa", url])], list(VARS.items())))
        it.claim(st == "ok" and list(it.iterate(v)) == ["aa", url], "a requirement given by its source is changed")
    Sc(ctx, "requirements", D["filter_requirements"]).run("sources", vcs)

    def subst(it):
        val, want = [("v", '"v"'), ('a"b', '"a\\"b"'), (True, "True"), (False, "False"), (3, "3"), (1.5, "1.5"), (None, "None"), ("", '""'), (0, "0")][outcome(it, "value", *range(9))]
        Pip(it, ENVS["cuda"])
        text = '#x# == "v" and y == #x# or #z# > #xx#'
        v = it.call(D["substitute_variables"], [text, Dct([("x", val), ("unused", 1), ("z", 2)])], [])
        it.claim(v == f'{want} == "v" and y == {want} or 2 > #xx#', "a variable is not replaced by its value wherever it stands, or something else is")
    Sc(ctx, "requirements", D["substitute_variables"]).run("variables", subst)

    def system(it):
        Pip(it, ENVS["cuda"])
        have = {"torch": "2.1.0+cu118", "numpy": "1.26.4"}

        def version(it, a, k):
            if a[0] not in have:
                it.raise_("PackageNotFoundError")
            return have[a[0]]
        it.exts["importlib.metadata.version"] = Native(version, "version")
        given = [outcome(it, "first", "#system_torch#", "#system_none#", "torch>=1", "#system_numpy# ; has_cuda", "aa[x]>=1"), outcome(it, "second", "#system_numpy#", "bb ; not has_cuda", "#system_torch#")]
        ini = Seq("list", list(given))
        st, v = attempt(it, lambda: it.call(it.attr(VM, "process_packages"), [ini], []))
        if "#system_none#" in given:
            it.claim(st == "raise", "a package that is not there stands for one of the system")
            return
        if given[0].endswith("has_cuda"):
            return
        want = {"#system_torch#": "torch==2.1.0", "#system_numpy#": "numpy==1.26.4"}
        exp = [parts(want.get(x, x)) for x in given if "not has_cuda" not in x]
        it.claim(st == "ok" and [parts(x) for x in it.iterate(v)] == exp, "the packages asked for are not the packages processed")
        it.claim(list(it.iterate(ini)) == given, "processing changes the list of the caller")
    Sc(ctx, "requirements", ctx.method(VM, "process_packages")).run("packages of the system", system)
    uv(ctx)


def uv(ctx):
    mod = ctx.prog.module("virtualenv.uv")
    UV = mod.defs["UVVirtualEnvManager"]
    have = {"aa": "1.5", "bb": "2.0", "cc": "0.9", "ww": "unknown"}
    OUT = {"keep": 0, "resolve": 1, "pin": 2}
    SPECS = {"aa": "pin", "AA": "pin", "aa>=1.0": "pin", "aa==1.5.0": "pin", "aa>=2": "resolve", "bb<2": "resolve", "zz": "resolve", "zz>=1": "resolve", "ww>=1": "resolve", "aa[x]": "resolve", "aa[x]>=1": "resolve",
             "aa @ https://h/a.whl": "keep", "zz @ https://h/z.whl": "keep", "git+https://h/r": "keep", "https://h/x.whl": "keep"}

    def split(it):
        Pip(it, ENVS["cuda"])
        a, b = outcome(it, "first", *SPECS), outcome(it, "second", "bb>=1", "yy", "git+ssh://h")
        st, v = attempt(it, lambda: it.call(it.attr(UV, "_split_specs"), [Seq("list", [a, b]), Dct(list(have.items()))], []))
        it.claim(st == "ok", "requirements cannot be compared with what is installed")
        if st != "ok":
            return
        keep, res, pin = list(it.iterate(v))
        keep, res, pin = list(it.iterate(keep)), list(it.iterate(res)), dict(items_of(pin))
        for s, w in ((a, SPECS[a]), (b, {"bb>=1": "pin", "yy": "resolve", "git+ssh://h": "keep"}[b])):
            got = s in keep or s in res
            it.claim(got == (w != "pin"), "a requirement that is not satisfied is skipped, or one that is is installed again")
            if w == "pin":
                n = s.lower()[:2]
                it.claim(pin.get(n) == have[n], "a package that is kept may change its version")
            if w == "keep":
                it.claim(s in keep and s not in res, "a requirement given by its source is not taken from there")
    Sc(ctx, "requirements", ctx.method(UV, "_split_specs")).run("what is installed", split)

    def needed(it):
        Pip(it, ENVS["cuda"])
        def dist(n, v):
            md = Stub("metadata", {}, {"__getitem__": lambda it, a, k: n, "__contains__": lambda it, a, k: a[0] == "Name", "get": lambda it, a, k: n, "__len__": lambda it, a, k: 1})
            return Stub("distribution", {"metadata": md, "version": v})
        it.exts["importlib.metadata.distributions"] = Native(lambda it, a, k: Seq("list", [dist("AA", "1.5"), dist("bb", "2.0")]), "distributions")
        asked = []
        plan = outcome(it, "plan", "new", "installed", "other case", "other version", "nothing")
        lists = {"new": ["zz==1.0", "yy==3.1"], "installed": ["zz==1.0", "bb==2.0"], "other case": ["zz==1.0", "BB==2.0"], "other version": ["zz==1.0", "bb==2.1"], "nothing": []}

        def resolve(it, a, k):
            asked.append((list(it.iterate(a[-2])), dict(items_of(a[-1]))))
            return Seq("list", list(lists[plan]))
        it.stubs["UVVirtualEnvManager._resolve_install_plan"] = resolve
        given = {"all there": ["aa", "bb>=1"], "some": ["aa", "zz"], "source": ["git+https://h/r"], "both": ["zz", "git+https://h/r", "bb"]}[outcome(it, "given", "all there", "some", "source", "both")]
        o = Obj(UV, {"env_path": Stub("path"), "_install_process": None})
        st, v = attempt(it, lambda: it.call(it.attr(o, "_filter_packages_not_installed"), [Seq("list", list(given))], []))
        it.claim(st == "ok", "requirements cannot be compared with what is installed")
        if st != "ok":
            return
        got = list(it.iterate(v))
        src = [x for x in given if x.startswith("git")]
        new = [x for x in (lists[plan] if "zz" in given else []) if x.lower() != "bb==2.0"]
        it.claim(sorted(got) == sorted(src + new), "what is installed is not what is missing")
        it.claim(len(asked) == ("zz" in given), "what is missing is not resolved")
        for r, p in asked:
            it.claim(r == ["zz"] and all(p.get(n) == ver for n, ver in (("aa", "1.5"), ("bb", "2.0")) if any(g.startswith(n) for g in given)), "what is missing is resolved without regard to what is there")
    Sc(ctx, "requirements", ctx.method(UV, "_filter_packages_not_installed")).run("what is missing", needed)

    def install(it):
        Pip(it, ENVS["cuda"])
        ran, code = [], outcome(it, "installer", 0, 1, -15)
        log = outcome(it, "logged", False, True)

        def popen(it, a, k):
            ran.append(list(it.iterate(a[0])))
            return Stub("process", {"returncode": code}, {"wait": lambda it, a, k: code, "poll": lambda it, a, k: None})
        it.exts["subprocess.Popen"] = Native(popen, "Popen")
        none = lambda it, a, k: None  # noqa: E731

        def logged(it, a, k):
            p = popen(it, a, k)
            return Stub("running", {}, {"__enter__": lambda it, a, k: p, "__exit__": none})
        it.stubs["utils.run_subprocess_with_logger"] = logged
        it.mods[(mod.name, "UV_PATH")] = "/bin/uv"
        it.mods[(mod.name, "logger")] = Stub("logger", {}, {n: none for n in ("info", "warning", "debug", "error")})
        skip = outcome(it, "skip installed", None, False, True)
        it.mods[(mod.name, "SKIP_INSTALLED")] = False
        left = outcome(it, "missing", "all", "one", "none") if skip else "all"
        it.stubs["UVVirtualEnvManager._filter_packages_not_installed"] = lambda it, a, k: Seq("list", list(it.iterate(a[-1]))[: {"all": 9, "one": 1, "none": 0}[left]])
        kw = [("log", log), ("engine", "vllm")]
        if skip is not None:
            kw.append(("skip_installed", skip))
        opts = outcome(it, "options", "none", "some", "lists")
        want = {}
        if opts != "none":
            many = lambda *x: Seq("list", list(x)) if opts == "lists" else x[0]  # noqa: E731
            kw += [("index_url", "http://i"), ("extra_index_url", many("http://e", "http://f")), ("find_links", many("/l", "/m")), ("trusted_host", many("h", "g")), ("no_build_isolation", True)]
            want = {"-i": ["http://i"], "--extra-index-url": ["http://e", "http://f"], "-f": ["/l", "/m"], "--trusted-host": ["h", "g"]}
            if opts == "some":
                want = {k: v[:1] for k, v in want.items()}
        path = Stub("path", {}, {"__str__": lambda it, a, k: "/env"})
        o = Obj(UV, {"env_path": path, "_install_process": None})
        given = {"some": ['aa[x]>=1 ; #engine# == "vllm"', "bb", "cc ; not has_cuda"], "none": [], "none apply": ["cc ; not has_cuda"]}
        which = outcome(it, "given", *given)
        st, v = attempt(it, lambda: it.call(it.attr(o, "install_packages"), [Seq("list", list(given[which]))], kw))
        exp = [parts("aa[x]>=1"), parts("bb")] if which == "some" else []
        exp = exp[: {"all": 9, "one": 1, "none": 0}[left]]
        it.claim(len(ran) == bool(exp), "packages are installed without being asked for, or not in spite of it")
        it.claim((st == "ok") == (not ran or code == 0), "a failed installation is not reported, or one that did not fail is")
        it.claim(o.attrs["_install_process"] is None, "an installation that ended can still be cancelled")
        if not ran:
            return
        cmd = ran[0]
        it.claim(cmd[:3] == ["/bin/uv", "pip", "install"] and ("-p" in cmd and cmd[cmd.index("-p") + 1] == "/env"), "packages are installed into another environment")
        it.claim([parts(x) for x in cmd if isinstance(x, str) and parts(x) in (parts("aa[x]>=1"), parts("bb"), parts("cc"))] == exp, "what is installed is not what was required")
        it.claim(("--no-deps" in cmd) == bool(skip), "what the packages depend on is not installed, or installed again")
        got = {}
        for i, x in enumerate(cmd[:-1]):
            if x in ("-i", "--extra-index-url", "-f", "--trusted-host"):
                got.setdefault(x, []).append(cmd[i + 1])
        it.claim(got == want and ("--no-build-isolation" in cmd) == (opts != "none"), "packages are installed with other options than given")
    Sc(ctx, "requirements", ctx.method(UV, "install_packages")).run("installing", install, max_paths=3000)

    def create(it):
        Pip(it, ENVS["cuda"])
        quiet(it)
        there = [outcome(it, "environment", False, True, "partly")]
        how = outcome(it, "exists", None, "ignore", "error", "clear", "nonsense")
        py = outcome(it, "python", None, "/usr/bin/python3.11")
        code = outcome(it, "uv", 0, 1)
        ev = []
        cfg = Stub("pyvenv.cfg", {}, {"exists": lambda it, a, k: there[0] is True})
        path = Stub("path", {}, {"__str__": lambda it, a, k: "/env", "exists": lambda it, a, k: bool(there[0]), "__truediv__": lambda it, a, k: cfg, "joinpath": lambda it, a, k: cfg})

        def rmtree(it, a, k):
            ev.append("remove")
            it.claim(a[0] is path or a[0] == "/env", "something else is removed")
            there[0] = False

        def run(it, a, k):
            k = dict(k)
            cmd = list(it.iterate(a[0]))
            ev.append(cmd)
            if code and k.get("check"):
                it.raise_("CalledProcessError")
            if not code:
                there[0] = True
            return Stub("completed", {"returncode": code}, {"check_returncode": lambda it, a, k: code and it.raise_("CalledProcessError")})
        it.exts["shutil.rmtree"] = Native(rmtree, "rmtree")
        it.exts["subprocess.run"] = Native(run, "run")
        it.exts["subprocess.check_call"] = Native(lambda it, a, k: run(it, a, [("check", True)]), "check_call")
        it.mods[(mod.name, "UV_PATH")] = "/bin/uv"
        it.stubs["uv._is_in_pyinstaller"] = lambda it, a, k: False
        before = there[0] is True
        o = Obj(UV, {"env_path": path, "_install_process": None})
        st, v = attempt(it, lambda: it.call(it.attr(o, "create_env"), [] if py is None else [py], [("exists", how)] if how else []))
        runs = [e for e in ev if e != "remove"]
        if before and how in ("error", "nonsense"):
            it.claim(st == "raise" and not ev, "an environment that exists is used or removed against what was asked")
        elif before and how != "clear":
            it.claim(st == "ok" and not ev, "an environment that exists is not used as it is")
        else:
            if before:
                it.claim("remove" in ev and ev.index("remove") < len(ev) - 1, "an environment is not cleared before it is created")
            else:
                it.claim(there[0] is not False or code or "remove" not in ev, "an environment is removed")
            it.claim(len(runs) == 1 and (st == "ok") == (not code), "a failed creation of an environment is not reported, or one that did not fail is")
            for c in runs:
                it.claim(c[:2] == ["/bin/uv", "venv"] and "/env" in c, "the environment is created somewhere else")
                it.claim((py in c and c[c.index(py) - 1] == "--python") if py else "--python" not in c, "the environment is not created for the python asked for")
                it.claim("--system-site-packages" in c, "the environment does not see the packages of the system")
    Sc(ctx, "requirements", ctx.method(UV, "create_env")).run("creating an environment", create)

    def plan(it):
        Pip(it, ENVS["cuda"])
        quiet(it)
        wrote, at_run, cmds = [], [], []
        buf = [""]

        def write(it, a, k):
            buf[0] += a[0]

        def flush(it, a, k):
            wrote.append(buf[0])
            buf[0] = ""
        f = Stub("file", {"name": "/tmp/c"}, {"write": write, "flush": flush, "writelines": lambda it, a, k: [write(it, [x], []) for x in it.iterate(a[0])] and None, "seek": lambda it, a, k: flush(it, [], [])})
        closed = []

        def leave(it, a, k):
            flush(it, [], [])
            closed.append(1)
        f.methods.update({"__enter__": lambda it, a, k: f, "__exit__": leave, "close": leave})
        it.exts["tempfile.NamedTemporaryFile"] = Native(lambda it, a, k: f, "NamedTemporaryFile")

        def run(it, a, k):
            cmds.append(list(it.iterate(a[0])))
            at_run.append("".join(wrote))
            it.claim(not closed, "the resolver reads a file that is gone")
            return Stub("completed", {"returncode": 0, "stderr": "Resolved 3 packages in 1ms\nWould install 2 packages\n + aa==1.0\n + b-b==2.0+cu1\n - aa==0.5\n ~ cc==1\nnot + dd==1 x\n", "stdout": " + no==1\n"})
        it.exts["subprocess.run"] = Native(run, "run")

        it.mods[(mod.name, "UV_PATH")] = "/bin/uv"
        pins = {"xx": "1.2", "yy": "3"} if outcome(it, "pinned", True, False) else {}
        specs = ["aa", "b-b>=1"]
        o = Obj(UV, {"env_path": Stub("path", {}, {"__str__": lambda it, a, k: "/env"}), "_install_process": None})
        st, v = attempt(it, lambda: it.call(it.attr(o, "_resolve_install_plan"), [Seq("list", list(specs)), Dct(list(pins.items()))], []))
        it.claim(st == "ok" and list(it.iterate(v)) == ["aa==1.0", "b-b==2.0+cu1"], "what has to be installed is not what the resolver says")
        it.claim(len(cmds) == 1 and "--dry-run" in cmds[0] and all(s in cmds[0] for s in specs), "the resolver is asked for something else, or installs")
        it.claim("-p" in cmds[0] and cmds[0][cmds[0].index("-p") + 1] == "/env", "the resolver looks at another environment")
        if pins:
            it.claim(at_run[0].split() == ["xx==1.2", "yy==3"] and any(c in cmds[0] and cmds[0][cmds[0].index(c) + 1] == "/tmp/c" for c in ("--constraint", "-c", "--constraints")), "packages that are kept may change their version")
    Sc(ctx, "requirements", ctx.method(UV, "_resolve_install_plan")).run("asking the resolver", plan)

    def cancel(it):
        Pip(it, ENVS["cuda"])
        quiet(it)
        state = outcome(it, "installation", "none", "running", "ended")
        ev = []
        alive = [state == "running"]

        def kill(n):
            def f(it, a, k):
                ev.append(n)
                alive[0] = False
            return f
        p = None if state == "none" else Stub("process", {}, {"poll": lambda it, a, k: None if alive[0] else 0, "terminate": kill("terminate"), "kill": kill("terminate"), "wait": lambda it, a, k: ev.append("wait") or (it.claim(not alive[0], "cancelling waits for the installation to end"), 0)[1]})
        o = Obj(UV, {"env_path": Stub("path"), "_install_process": p})
        st, v = attempt(it, lambda: it.call(it.attr(o, "cancel_install"), [], []))
        it.claim(st == "ok" and ("terminate" in ev) == (state == "running"), "an installation is not cancelled, or one that is not running is")
        it.claim(state != "running" or ev == ["terminate", "wait"], "cancelling does not wait until the installation is gone")
    Sc(ctx, "requirements", ctx.method(UV, "cancel_install")).run("cancelling an installation", cancel)

    _logged(ctx, mod, UV)
    _paths(ctx, mod, UV)
    _machine_env(ctx)


def _logged(ctx, mod, UV):
    def logged(it):
        Pip(it, ENVS["cuda"])
        quiet(it)
        um = it.prog.module("virtualenv.utils")
        code = outcome(it, "installer", 0, 1)
        pace = outcome(it, "readers", "keep up", "are late")
        fault = outcome(it, "output", "plain", "undecodable", "empty lines", "none")
        lines = {"plain": [b"one\n", b"\x1b[32mtwo\x1b[0m\n", b"three"], "undecodable": [b"\xff\n", b"two\n"], "empty lines": [b"\n", b"two\n", b"\n", b"three\n"], "none": []}[fault]
        text = [x.decode(errors="replace") for x in lines]
        want = [re.sub("\x1b\\[[0-9]*m", "", x).rstrip("\n") for x in text]
        said, shown, threads, ended = {"info": [], "error": []}, {"stdout": [], "stderr": []}, [], []
        it.mods[(um.name, "logger")] = Stub("logger", {}, {n: (lambda it, a, k, n=n: said.setdefault(n, []).append(a[-1] if len(a) < 3 else a[2])) for n in ("info", "error", "warning", "debug")})
        for n in shown:
            it.exts["sys." + n] = Stub(n, {}, {"write": lambda it, a, k, n=n: shown[n].append(a[0]), "flush": lambda it, a, k: None})

        def stream(n):
            left = list(lines)
            o = Stub("pipe " + n)
            ends = []

            def rd(it, a, k):
                if left:
                    return left.pop(0)
                ends.append(1)
                if len(ends) > 3:
                    it.claim(False, "the reading of what the installer says never ends")
                    it.raise_("RuntimeError")
                return b""
            o.methods = {"readline": rd, "__iter__": lambda it, a, k: Seq("list", [left.pop(0) for _ in list(left)]), "close": lambda it, a, k: None}
            return o

        def thread(it, a, k):
            k = dict(k)
            t = {"run": lambda: it.call(k["target"], list(it.iterate(k["args"])) if "args" in k else [], list(items_of(k["kwargs"])) if "kwargs" in k else []), "state": "new"}
            threads.append(t)

            def start(it, a, k):
                t["state"] = "started"

            def join(it, a, k):
                it.claim(t["state"] != "new", "a reader that is not started is waited for")
                if t["state"] == "started" and not a and not dict(k).get("timeout"):
                    t["state"] = "ended"
                    t["run"]()
            return Stub("thread", {}, {"start": start, "join": join, "is_alive": lambda it, a, k: t["state"] == "started"})
        it.exts["threading.Thread"] = Native(thread, "Thread")

        def popen(it, a, k):
            k = dict(k)
            it.claim(len(ended) == 0 and "stdout" in k and "stderr" in k, "what the installer says cannot be read")

            def wait(it, a, k):
                it.claim(len([t for t in threads if t["state"] != "new"]) == 2, "the installer is waited for although nobody reads what it says: it may never end")
                if pace == "keep up":
                    for t in threads:
                        if t["state"] == "started":
                            t["state"] = "ended"
                            t["run"]()
                ended.append(1)
                p.attrs["returncode"] = code
                return code
            p = Stub("process", {"returncode": None, "stdout": stream("stdout"), "stderr": stream("stderr")}, {"wait": wait, "poll": lambda it, a, k: code if ended else None})
            return p
        it.exts["subprocess.Popen"] = Native(popen, "Popen")
        it.exts["subprocess.PIPE"] = -1
        it.mods[(mod.name, "UV_PATH")] = "/bin/uv"
        it.mods[(mod.name, "SKIP_INSTALLED")] = False
        o = Obj(UV, {"env_path": Stub("path", {}, {"__str__": lambda it, a, k: "/env"}), "_install_process": None})
        st, v = attempt(it, lambda: it.call(it.attr(o, "install_packages"), [Seq("list", ["aa"])], [("log", True)]))
        it.claim((st == "ok") == (code == 0), "a failed installation is not reported, or one that did not fail is")
        it.claim(bool(ended) and all(t["state"] == "ended" for t in threads), "what the installer says is not read to its end")
        for n, lv in (("stdout", "info"), ("stderr", "error")):
            it.claim("".join(shown[n]) == "".join(text), f"what the installer writes to {n} is not shown as it is")
            it.claim(said[lv] == want, f"the lines the installer writes to {n} are not logged one by one")
    Sc(ctx, "requirements", ctx.method(UV, "install_packages")).run("installing with a log", logged)


def _paths(ctx, mod, UV):
    def paths(it):
        Pip(it, ENVS["cuda"])
        quiet(it)
        there = outcome(it, "environment", True, False)
        gone = []

        def sub(p):
            def join(it, a, k):
                return sub("/".join([p] + [x if isinstance(x, str) else x.attrs["p"] for x in a]))
            return Stub("path " + p, {"p": p}, {"__str__": lambda it, a, k: p, "__fspath__": lambda it, a, k: p, "exists": lambda it, a, k: there, "is_dir": lambda it, a, k: there, "__truediv__": join, "joinpath": join})
        it.exts["shutil.rmtree"] = Native(lambda it, a, k: gone.append(a[0] if isinstance(a[0], str) else a[0].attrs["p"]), "rmtree")
        it.exts["sysconfig.get_path"] = Native(lambda it, a, k: f"{a[0]} of {dict(items_of(dict(k)['vars'])).get('base')}", "get_path")
        o = Obj(UV, {"env_path": sub("/env"), "_install_process": None})
        py = it.call(it.attr(o, "get_python_path"), [], [])
        it.claim(py == ("/env/bin/python" if there else None), "the python of the environment is somewhere else")
        it.claim(it.call(it.attr(o, "get_lib_path"), [], []) == "purelib of /env", "the packages of the environment are somewhere else")
        it.call(it.attr(o, "remove_env"), [], [])
        it.claim(gone == ["/env"] if there else not set(gone) - {"/env"}, "removing an environment removes something else, or nothing")
    Sc(ctx, "requirements", ctx.method(UV, "get_python_path")).run("the paths of an environment", paths)


def _machine_env(ctx):
    pm, core = ctx.prog.module("virtualenv.platform"), ctx.prog.module("virtualenv.core")

    def env(it):
        what = outcome(it, "machine", "cuda", "cpu build", "npu", "no torch", "old torch")
        cap = (lambda it, a, k: Seq("tuple", [9, 0])) if what == "cuda" else (lambda it, a, k: it.raise_("AssertionError" if what == "cpu build" else "RuntimeError"))
        cuda = Stub("cuda", {}, {"is_available": lambda it, a, k: what == "cuda", "get_device_capability": cap})
        torch = Stub("torch", {"cuda": cuda, "version": Stub("version", {"cuda": "12.1" if what == "cuda" else None}), "npu": Stub("npu", {}, {"is_available": lambda it, a, k: what == "npu"})})
        it.exts["torch"] = "<missing>" if what == "no torch" else torch
        it.exts["torch_npu"] = Stub("torch_npu") if what == "npu" else "<missing>"
        it.exts["packaging.markers.default_environment"] = Native(lambda it, a, k: Dct([("os_name", "posix"), ("sys_platform", "linux")]), "default_environment")
        st, v = attempt(it, lambda: it.call(core.defs["get_env"], [], []))
        it.claim(st == "ok", "the environment of the markers cannot be found out")
        if st != "ok":
            return
        got = {k: x for k, x in items_of(v)}
        has = what == "cuda"
        it.claim(got.get("os_name") == "posix" and got.get("sys_platform") == "linux", "the standard variables of markers are missing")
        it.claim((got.get("has_cuda"), got.get("cuda_version"), got.get("cuda_arch"), got.get("has_npu")) == (has, "12.1" if has else None, "sm_90" if has else None, what == "npu"), "a marker is decided by something that is not so on this machine")
    Sc(ctx, "requirements", core.defs["get_env"]).run("the machine", env)


def quiet(it):
    for m in it.prog.modules.values() if isinstance(it.prog.modules, dict) else it.prog.modules:
        if "virtualenv" in m.name:
            it.mods[(m.name, "logger")] = Stub("logger", {}, {n: (lambda it, a, k: None) for n in ("info", "warning", "debug", "error")})

#!/usr/bin/env python3
"""Mutation self-test of the checks: every entry of mutants/*.py is applied to a
scratch copy of the package sources and the named checks are run on it.

usage: run.py [PROP|name ...]    BUG entries must be reported, REF entries must stay quiet."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("XSA_REPO", "/repo/python")


def load():
    out = []
    d = os.path.join(HERE, "mutants")
    for fn in sorted(os.listdir(d)):
        if fn.endswith(".py"):
            sp = importlib.util.spec_from_file_location(fn[:-3], os.path.join(d, fn))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            out += getattr(m, "MUTANTS", None) or m.M
    return out


def one(m):
    name, props, kind, edits = m
    tmp = tempfile.mkdtemp(prefix="xsamut")
    try:
        shutil.copytree(os.path.join(SRC, "xoscar"), os.path.join(tmp, "xoscar"), ignore=shutil.ignore_patterns("*.so", "*.c", "*.cpp", "__pycache__", "tests"))
        for f, old, new in edits:
            p = os.path.join(tmp, "xoscar", f)
            s = open(p).read()
            if old not in s:
                return (m, "NOAPPLY", f)
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        res = []
        for pr in props:
            env = dict(os.environ, XSA_REPO=tmp, XSA_NOEVIDENCE="1")
            r = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), pr], capture_output=True, text=True, env=env)
            res.append((pr, r.returncode, r.stdout + r.stderr))
        return (m, res, None)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    sel = sys.argv[1:]
    ms = [m for m in load() if not sel or m[0] in sel or any(p in sel for p in m[1]) or any(m[0].startswith(x) for x in sel)]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for m, res, err in ex.map(one, ms):
            if err is not None:
                print("NOAPPLY", m[0], err)
                bad += 1
                continue
            rcs = {p: rc for p, rc, _ in res}
            if m[2] == "BUG":
                ok = any(rc == 1 for rc in rcs.values())
            else:
                ok = all(rc == 0 for rc in rcs.values())
            if not ok:
                bad += 1
                print("MISS" if m[2] == "BUG" else "FALSE-ALARM", m[0], rcs)
                for p, rc, o in res:
                    if rc != 0:
                        print("   ", "\n    ".join(o.splitlines()[:6])[:1500])
            elif m[2] == "REF" and any("rule group not applied" in o for _, _, o in res):
                print("UNDECIDED", m[0], [x for _, _, o in res for x in o.splitlines() if "not applied" in x][:2])
            elif os.environ.get("V"):
                print("ok", m[0], rcs)
                for p, rc, o in res:
                    if rc == 1:
                        print("   ", o.splitlines()[0][:200])
    print(f"{len(ms)} mutants, {bad} wrong")
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())

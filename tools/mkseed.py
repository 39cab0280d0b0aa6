"""mkseed.py: module SEEDS list -> /verif/seeded dirs. Each: id, prop, edits[(file,old,new)], needs, breaks, demo(py text)"""
import json, os, subprocess, sys, importlib.util, shutil
src = sys.argv[1]; only = set(sys.argv[2:])
spec = importlib.util.spec_from_file_location("s", src); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
W = f"/tmp/mk/w_{os.getpid()}"
subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); 
subprocess.check_call(["git", "clone", "-q", "/repo", W])
for s in m.SEEDS:
    if only and s["id"] not in only: continue
    for f, o, n in s["edits"]:
        p = f"{W}/python/xoscar/{f}"; t = open(p).read()
        assert t.count(o) == 1, (s["id"], f, t.count(o), o)
        open(p, "w").write(t.replace(o, n))
    d = f"/verif/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\ncd /tmp\nPYTHONPATH=/repo/python exec timeout 250 /opt/venv/bin/python "$d/demo.py"\n')
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    print("made", s["id"])
shutil.rmtree(W)

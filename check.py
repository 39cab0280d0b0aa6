#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: decide one property of /repo statically.

exit 0: every obligation holds (or is a listed known finding)
exit 1: a VIOLATION line on stdout
exit 2: the sources could not be read at all (a parse error)

What the analysis cannot follow is printed as UNDECIDED (and listed in the
evidence); it is neither an alarm nor counted as discharged.
"""

import importlib
import json
import os
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from xsa import registry  # noqa: E402
from xsa.core import AnalysisError, Ctx, Program  # noqa: E402


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith(f"known: property={prop} "):
                body = line[len(f"known: property={prop} "):]
                key, _, text = body.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def run(prop, tier, repo):
    mods = registry.RULES[prop]
    prog = Program(repo)
    ctx = Ctx(prog, prop, tier)
    errors = []
    for mod, fn in mods:
        m = importlib.import_module(f"xsa.rules.{mod}")
        try:
            getattr(m, fn)(ctx)
        except AnalysisError as e:
            errors.append(f"{mod}.{fn}: {e}")
        except Exception as e:  # the code has a form the rule does not know
            tb = traceback.extract_tb(e.__traceback__)[-1]
            errors.append(f"{mod}.{fn}: {type(e).__name__} {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
            if os.environ.get("XSA_VERBOSE"):
                traceback.print_exc()
    return ctx, errors


def main():
    prop = sys.argv[1]
    repo = os.environ.get("XSA_REPO", "/repo/python")
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        ctx, errors = run(prop, tier, repo)
    except AnalysisError as e:
        print(f"ANALYSIS-ERROR property={prop} {e}", file=sys.stderr)
        return 2
    wall = time.time() - t0
    if os.environ.get("XSA_COV"):  # development aid: which statements no scenario reaches
        with open(os.path.join(os.environ["XSA_COV"], prop), "w") as fh:
            for f, lines in ctx.prog.evaluated.items():
                print(f.module.rel, f.short, f.node.lineno, *sorted(lines), file=fh)
    known = load_known(prop)
    bad = [o for o in ctx.obls if not o["ok"]]
    reported, listed = [], []
    seen = set()
    for o in bad:
        sig = (o["rule"], o["construct"], o["where"], o["msg"])
        if sig in seen:
            continue
        seen.add(sig)
        key = f"{o['rule']}@{o['construct']}"
        o["key"] = key
        hit = [k for k in known if k[0] == key]
        (listed if hit else reported).append(o)
    by_rule = {}
    for o in ctx.obls:
        r = by_rule.setdefault(o["rule"], {"instances": 0, "held": 0, "constructs": []})
        r["instances"] += 1
        r["held"] += bool(o["ok"])
        if o["construct"] not in r["constructs"]:
            r["constructs"].append(o["construct"])
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current sources of /repo/python/xoscar (Python and Cython): "
                           "the functions listed are interpreted over an abstract domain for every outcome of their environment; every rule instance below is decided on all of the abstract paths; nothing is executed.",
            "obligations": len(ctx.obls),
            "discharged": sum(bool(o["ok"]) for o in ctx.obls),
            "modules_parsed": len(ctx.prog.modules),
            "modules_consulted": sorted(ctx.modules),
            "functions_evaluated": sorted(f"{f.module.rel}: {f.short}" for f in ctx.prog.evaluated),
            "statements_evaluated": sum(len(v) for v in ctx.prog.evaluated.values()),
            "anchor_counts": ctx.anchors,
            "rules": by_rule,
            "rule_docs": {r: registry.DOC.get(r, "") for r in by_rule if registry.DOC.get(r)},
            "analysis_errors": errors,
            "undecided": ctx.open,
        },
        "assumptions": registry.ASSUMPTIONS,
        "wall_s": round(wall, 3),
        "violations": len(reported),
    }
    evdir = os.path.join(HERE, "evidence")
    if os.environ.get("XSA_NOEVIDENCE"):  # self-test runs on scratch sources
        evdir = tempfile.mkdtemp(prefix="xsaev") if repo.startswith("/repo") else repo
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    if os.environ.get("XSA_VERBOSE"):
        lines = dict.fromkeys(
            ("ok   " if o["ok"] else "BAD  ") + f"{o['rule']} @ {o['construct']} {o.get('detail') or o.get('msg', '')}"
            for o in ctx.obls)
        for x in lines:
            print(x)
    for o in {(o["rule"], o["construct"], o["reason"]): o for o in ctx.open}.values():
        print(f"UNDECIDED {o['rule']} @ {o['construct']}: {o['reason']}")
    for o in listed:
        print(f"KNOWN-FINDING: property={prop} {o['key']} at {o['where']}: {o['msg']}")
    if reported:
        rp = os.path.join(evdir, f"{prop}.violation.txt")
        with open(rp, "w") as fh:
            for o in reported:
                fh.write(f"{o['where']}: [{o['rule']}] {o['construct']}: {o['msg']}\n")
                if o.get("path"):
                    fh.write(f"    path: {o['path']}\n")
        for o in reported:
            print(f"{o['where']}: [{o['rule']}] {o['construct']}: {o['msg']}")
            if o.get("path"):
                print(f"    path: {o['path']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        # part of the rules could not be applied to this form of the code: said
        # loudly, but not an alarm -- nothing that was analysed breaks the property
        for e in errors:
            print(f"UNDECIDED property={prop} rule group not applied: {e}")
    print(f"OK property={prop} obligations={len(ctx.obls)} rules={len(by_rule)} known={len(listed)} wall={wall:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())

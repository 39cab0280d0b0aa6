#!/bin/bash
# usage: tools/seedrun.sh SEED_DIR [notest]   validates a planted bug in a scratch copy shown as /repo in a private namespace
dir=$(realpath "$1"); id=$(basename "$dir"); mode=$2
w=/tmp/sr_$id; rm -rf "$w"; mkdir -p "$w"; cp -a /repo "$w/repo"; cp -a "$dir" "$w/demo"; git -C "$w/repo" checkout -q -- . 
prop=$(python3 -c "import json,sys;print(json.load(open('$dir/meta.json'))['property'])")
ns() { unshare -Urmnpf --mount-proc bash -c "ip link set lo up 2>/dev/null; mount --bind $w/repo /repo; cd /repo; $1"; }
ns "bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $w/demo/demo.sh" >"$w/demo0.log" 2>&1; r0=$?
git -C "$w/repo" apply "$dir/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 2; }
ns "bash /opt/vp/build.sh >$w/build.log 2>&1 || echo BUILDFAIL; timeout 300 bash $w/demo/demo.sh" >"$w/demo1.log" 2>&1; r1=$?
grep -q BUILDFAIL "$w/demo1.log" && echo "$id: BUILD FAILED $(tail -3 $w/build.log)"
t=skipped
if [ "$mode" != notest ]; then
  ns "bash /opt/vp/test.sh $w/out.json >$w/test.log 2>&1"
  cat > "$w/miss.py" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open(sys.argv[1]))['passed'])
for x in b:
    if x not in o: m,_,n=x.partition('::'); print('%s.py::%s' % (m.replace('.','/'), n) if '[127' not in n and 'PORT' not in n else m.replace('.','/')+'.py::'+n.split('[')[0])
P
  python3 "$w/miss.py" "$w/out.json" > "$w/miss" 2>"$w/miss.err" || echo NOOUT > "$w/miss"
  for k in 1 2 3; do
    [ -s "$w/miss" ] || break
    ns "cd /repo/python; : > $w/miss2; while read -r x; do PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 200 tini -s -- /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=100 -o log_cli=false \"\$x\" >/dev/null 2>&1 </dev/null || echo \"\$x\" >> $w/miss2; done < $w/miss; mv $w/miss2 $w/miss"
  done
  t=ok; [ -s "$w/miss" ] && t="BROKEN $(tr '\n' ' ' < $w/miss)"
fi
c=$(cd /verif; XSA_NOEVIDENCE=1 XSA_REPO=$w/repo/python timeout 800 python3 check.py $prop 2>&1 | grep -E "VIOLATION|UNDECIDED" | head -3 | cut -c1-220)
echo "$id prop=$prop demo-unpatched=$r0 demo-patched=$r1 tests=$t check: ${c:-MISSED}"
[ "$KEEP" ] || rm -rf "$w"

#!/bin/bash
# plant.sh BUG...   -- validate planted bugs and run their property's check, in a private mount namespace
# (scratch copy of /repo bound over /repo, scratch copy of /verif over /verif; nothing real is touched)
S=/tmp/scr; mkdir -p $S
[ -d $S/repo ] || cp -a /repo $S/repo
mkdir -p $S/verif
if [ -z "$IN_NS" ]; then exec env IN_NS=1 unshare -m bash "$(readlink -f "$0")" "$@"; fi
mkdir -p $S/real; mount --bind /verif $S/real
git -C $S/repo fetch -q /repo HEAD && git -C $S/repo reset -q --hard FETCH_HEAD
for f in kit tools known_findings.txt env.sh check.sh setup.sh m_arch $(cd /verif; ls -d */Cargo.toml | xargs -n1 dirname); do
  mkdir -p $S/verif/$(dirname $f); cp -au /verif/$f $S/verif/$(dirname $f)/ ; done
mount --bind $S/repo /repo; mount --bind $S/verif /verif
cd /repo
for b in "$@"; do
  d=$S/real/seeded/$b; res="$b:"
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- . 
  if [ -z "$SKIP_DEMO" ]; then (cd /repo; bash $d/demo.sh >$S/demo0.log 2>&1); res="$res demo0=$?"; fi
  git -C /repo apply $d/patch.diff || { echo "$b: patch does not apply"; continue; }
  if [ -z "$SKIP_DEMO" ]; then (cd /repo; bash $d/demo.sh >$S/demo1.log 2>&1); res="$res demo1=$?"; fi
  if [ -z "$SKIP_TEST" ]; then
    bash /opt/vp/build.sh >$S/build.log 2>&1; res="$res build=$?"
    bash /opt/vp/test.sh $S/out.json >$S/test.log 2>&1
    res="$res $(tail -1 $S/test.log)"
  fi
  (cd /verif; timeout 900 ./check.sh $prop quick >$S/check.$b.log 2>&1); rc=$?
  v=$(grep -c "^VIOLATION property=$prop " $S/check.$b.log)
  python3 - "$b" "$prop" "$rc" "$v" $S/real/tools/results.json <<'PY'
import json, sys, os
b, p, rc, v, f = sys.argv[1:]
d = json.load(open(f)) if os.path.exists(f) else {}
d[b] = {'property': p, 'caught': rc == '1' and v != '0'}
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
PY
  echo "$res check[$prop]=$rc violation_lines=$v  $(grep -m1 '^  \[' $S/check.$b.log | cut -c1-150)"
  git -C /repo checkout -q -- .
done

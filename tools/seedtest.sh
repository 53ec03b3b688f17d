#!/bin/bash
# seedtest.sh [-t] ID...: check planted bugs in scratch copies: the demo passes
# on the unchanged tree and fails with the patch; with -t, the stable tests pass.
V=$(cd "$(dirname "$0")/.." && pwd)
T=0; [ "$1" = -t ] && { T=1; shift; }
for id; do
  d=$(mktemp -d /tmp/seed.XXXXXX); r=
  mkdir $d/repo $d/s $d/vp
  git -C /repo archive HEAD | tar x -C $d/repo
  cp -a $V/seeded/$id/. $d/s/; rm -f $d/s/*.diff $d/s/meta.json
  (cd $d/repo && timeout 300 bash $d/s/demo.sh) > $d/out0 2>&1; a=$?
  if ! (cd $d/repo && git init -q . 2>/dev/null; git apply $V/seeded/$id/patch.diff); then echo "$id PATCH FAILS"; rm -rf "$d"; continue; fi
  (cd $d/repo && timeout 300 bash $d/s/demo.sh) > $d/out1 2>&1; b=$?
  r="$id demo: unchanged $a patched $b"
  [ $a = 0 ] && [ $b != 0 ] || { r="$r BAD"; tail -n 5 $d/out0 $d/out1; }
  if [ $T = 1 ]; then
    rm -rf "$d/repo/.git"
    for f in lib.sh test.sh; do sed "s#/opt/vp/lib.sh#$d/vp/lib.sh#; s#^REPO=/repo#REPO=$d/repo#" /opt/vp/$f > $d/vp/$f; done
    bash $d/vp/test.sh $d/out.json > $d/test.log 2>&1
    r="$r tests: $(python3 - $d/out.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(b)
ok=set(o.get('passed') or o.get('pass') or [])
st=b.get('stable') or b.get('passed') or b.get('tests') or b
print(len(ok),'passed;', 'missing', sorted(set(st)-ok)[:5])
P
)"
  fi
  echo "$r"; rm -rf "$d"
done

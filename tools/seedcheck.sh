#!/bin/bash
# seedcheck.sh ID...: which registered check catches a planted bug (own property, or all with -a)
V=$(cd "$(dirname "$0")/.." && pwd)
A=0; [ "$1" = -a ] && { A=1; shift; }
one() {
  id=$1; d=$(mktemp -d /tmp/sc.XXXXXX)
  git -C /repo archive HEAD | tar x -C $d; (cd $d; git init -q .; git apply $V/seeded/$id/patch.diff)
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])"); w=$p; [ $A = 1 ] && w=all
  (cd $V; mkdir $d/ev; GGGGC_REPO=$d GGSA_EVIDENCE=$d/ev python3 -m sa.main $w) > $d/o 2>&1
  if grep -q "^VIOLATION property=$p " $d/o; then r=caught; else r=MISSED; fi
  echo "$r $id ($p) also: $(grep -o '^VIOLATION property=C[0-9]*' $d/o | cut -d= -f2 | tr '\n' ' ') $(grep '^ERROR' $d/o | head -2)"
  rm -rf "$d"
}
export -f one; export V A
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'

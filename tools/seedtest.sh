#!/bin/bash
# tools/seedtest.sh [id...]: run the quick check of each planted bug's property against it (in /repo, undone afterwards);
# the spaces which caught it go to tools/caught.tsv, remarks behind " - " in it are kept
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply --whitespace=nowarn /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  t=$SECONDS; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/seedtest.out 2>&1; rc=$?
  git -C /repo checkout -- .
  sp=$(grep -o '^ *C[0-9][0-9]\.[a-zA-Z0-9_-]* #' /tmp/seedtest.out | tr -d ' #' | sort -u | tr '\n' ' ')
  echo "$d	$p rc=$rc $(($SECONDS-t))s $sp"
  [ $rc = 1 ] || sp="NOT CAUGHT"
  python3 - "$d" "${sp% }" <<'P'
import sys,os
f="tools/caught.tsv"; r=dict(l.rstrip("\n").split("\t") for l in open(f)) if os.path.exists(f) else {}
o=r.get(sys.argv[1],""); r[sys.argv[1]]=sys.argv[2].replace(" ",", ")+(" - "+o.split(" - ",1)[1] if " - " in o else "")
open(f,"w").write("".join("%s\t%s\n"%(k,r[k]) for k in sorted(r)))
P
done

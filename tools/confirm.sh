#!/bin/bash
# confirm.sh [ID...]: in the scratch copy /tmp/sv, apply /repo HEAD + the named planted changes together, build, run the stable tests
R=/tmp/sv/repo
git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD && git -C $R clean -fdq
for i in "$@"; do git -C $R apply /verif/seeded/$i/patch.diff || { echo "APPLY FAILED $i"; exit 1; }; done
bash /tmp/sv/build.sh > /tmp/sv/build.log 2>&1 || { tail -30 /tmp/sv/build.log; echo "BUILD FAILED $*"; exit 1; }
bash /tmp/sv/test.sh /tmp/sv/out.json
python3 - "$@" <<'P'
import json,sys
b=set(json.load(open("/tmp/sv/BASELINE.json"))["stable"]); o=json.load(open("/tmp/sv/out.json"))
bad=sorted(b-set(o["passed"])); print("CONFIRM",sys.argv[1:], "stable",len(b),"not passing",len(bad)); [print("  ",x) for x in bad[:40]]
P

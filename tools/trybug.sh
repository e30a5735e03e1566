#!/bin/bash
# trybug.sh ID [PROPERTY...]: run the checks against a scratch copy of /repo with the planted change, outside /repo
ID=$1; shift; R=/tmp/sv/tr; W=/tmp/sv/v
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
[ -d $R ] || git clone -q /repo $R
git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD && git -C $R clean -fdq
[ "$ID" = none ] || git -C $R apply /verif/seeded/$ID/patch.diff || exit 3
mkdir -p $W; rsync -a --delete --exclude=.git --exclude=.build --exclude=seeded --exclude=evidence /verif/ $W/
sed -i "s#\"/repo/#\"$R/#g" $W/harness/*/Cargo.toml $W/kani/*/Cargo.toml 2>/dev/null
for p in $P; do ( cd $W && VERIF_REPO=$R VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 check.py $p 2>/tmp/sv/trybug.err | tail -${L:-6} | cut -c1-600; echo "== $ID $p rc=${PIPESTATUS[0]}" ); done

#!/bin/bash
# mkbug.sh ID PROPERTY CRATES "needs" "what": take the diff of scratch /tmp/sv/edit and a demo main.rs on stdin
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/sv/edit diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "empty diff"; exit 1; }
git -C /tmp/sv/edit checkout -q -- .
cat > $D/main.rs
cat > $D/demo.sh <<'S'
#!/bin/bash
# builds the small program beside this script against the checked-out crates and runs it
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$(pwd)
export PATH=$PATH:/root/.cargo/bin CARGO_NET_OFFLINE=true
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$HERE/main.rs" "$T/src/main.rs"; cp "$REPO/Cargo.lock" "$T/Cargo.lock" 2>/dev/null; rm -f "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
C
S
for c in $3; do echo "echo \"logicaffeine-$c = { path = \\\"\$REPO/crates/logicaffeine_$c\\\" }\" >> \"\$T/Cargo.toml\"" >> $D/demo.sh; done
# DEPS: further dependency lines (REPO stands for the checkout), COPY: files of the checkout to place beside main.rs
[ -z "$DEPS" ] || printf '%s\n' "$DEPS" | while IFS= read -r l; do l=${l//\"/\\\"}; echo "echo \"${l//REPO/\$REPO}\" >> \"\$T/Cargo.toml\"" >> $D/demo.sh; done
for f in $COPY; do echo "cp \"\$REPO/$f\" \"\$T/src/\"" >> $D/demo.sh; done
cat >> $D/demo.sh <<'S'
cd "$T" && CARGO_TARGET_DIR="$T/target" timeout 290 cargo run --offline --quiet 
S
python3 - "$ID" "$2" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
R=/tmp/sv/dr; [ -d $R ] || git clone -q /repo $R
git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
( cd $R && bash $D/demo.sh >/tmp/sv/demo0.log 2>&1 ); a=$?
git -C $R apply $D/patch.diff && ( cd $R && bash $D/demo.sh >/tmp/sv/demo1.log 2>&1 ); b=$?
git -C $R checkout -q -- .
echo "$ID demo: clean=$a patched=$b"; [ $a = 0 ] || tail -15 /tmp/sv/demo0.log; tail -3 /tmp/sv/demo1.log

#!/bin/bash
# mkseed.sh ID PROP HARNESS "deps" "needs" "breaks": turns the edits in the
# scratch worktree /tmp/wt and the demo in /tmp/demo.rs into /verif/seeded/ID.
set -e
ID=$1; PROP=$2; H=$3; DEPS=$4; NEEDS=$5; BREAKS=$6
S=/verif/seeded/$ID; mkdir -p $S
git -C /tmp/wt diff > $S/patch.diff
test -s $S/patch.diff
git -C /tmp/wt checkout -q -- .
cp /tmp/demo.rs $S/main.rs
cp /verif/$H/Cargo.lock $S/Cargo.lock
{ printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
  for d in $DEPS; do case $d in sip-*) n=${d%%+*}; if [ "$n" = "$d" ]; then echo "$n = { path = \"@REPO@/crates/$n\" }"; else echo "$n = { path = \"@REPO@/crates/$n\", features = [\"${d#*+}\"] }"; fi;; tokio) echo 'tokio = { version = "1", features = ["full"] }';; bytes|anyhow) echo "$d = \"1\"";; smol_str) echo 'smol_str = "0.3"';; async-trait) echo 'async-trait = "0.1"';; tracing) echo 'tracing = "0.1"';; *) echo "unknown dep $d" >&2; exit 1;; esac; done; } > $S/Cargo.toml.in
cat > $S/demo.sh <<D
#!/bin/bash
# Run with cwd /repo: builds and runs main.rs against it, in a scratch folder.
export PATH=/root/.cargo/bin:\$PATH CARGO_HOME=\${CARGO_HOME:-/root/.cargo} CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
D=\$(cd "\$(dirname "\$0")" && pwd); R=\$PWD
W=\$(mktemp -d /tmp/demo-$ID.XXXXXX) || exit 2
trap 'cd /; rm -rf "\$W"' EXIT
mkdir \$W/src && cp \$D/main.rs \$W/src/ && cp \$D/Cargo.lock \$W/ && sed "s#@REPO@#\$R#g" \$D/Cargo.toml.in > \$W/Cargo.toml || exit 2
cd \$W && timeout 250 cargo run --offline -q 2>&1
D
chmod +x $S/demo.sh
python3 - "$S" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import json,sys
s,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(s+"/meta.json","w"),indent=1)
P
echo made $ID

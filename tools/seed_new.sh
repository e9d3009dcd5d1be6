#!/bin/bash
# seed_new.sh ID PROPERTY "needs" "what it breaks" : records the edit now in the scratch copy /tmp/mut (and its demo
# /tmp/mut-demo.rs) as /verif/seeded/ID after confirming it: builds, passes the stable tests, demo discriminates.
set -u
ID=$1; D=/verif/seeded/$ID
mkdir -p $D
git -C /tmp/mut diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty diff"; exit 1; }
cp /tmp/mut-demo.rs $D/demo.rs
cat > $D/demo.sh <<'S'
#!/bin/bash
# Exit 0 when the property's demonstration holds on the tree in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"; cp "$here/demo.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/" 2>/dev/null
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
text-document = { path = "$repo/crates/public_api" }
common = { package = "text-document-common", path = "$repo/crates/common" }
frontend = { package = "text-document-frontend", path = "$repo/crates/frontend" }
anyhow = "1"
T
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export CARGO_TARGET_DIR="${DEMO_TARGET:-$w/target}"
cd "$w" && cargo build --offline --quiet || exit 3
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
S
python3 - "$ID" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P

"""mkseed(id, property, needs, breaks, edits, demo): writes /verif/seeded/<id>/ (edits: [(file, old, new)])."""
import os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/tmp/seedrepo")  # a clone of /repo
SH = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mpstthree = { path = "$repo", features = ["full", "baking_atmp_interleaved", "baking_interleaved", "top_down_nuscr", "transport"] }
mpst-seq-proc = { path = "$repo/mpst_seq_proc" }
crossbeam-channel = "0.5"
either = "1"
petgraph = "0.6"
rand = "*"
[profile.dev]
debug = 0
incremental = false
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=stable
cd "$t" || exit 3
cargo build --offline >"$t/log" 2>&1 || { tail -40 "$t/log"; echo "demo does not build"; exit 4; }
timeout ${DEMO_SECS:-60} ./target/debug/demo
'''


def mkseed(id, prop, needs, breaks, edits, demo):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    old = {}
    try:
        for f, a, b in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            old.setdefault(p, s)
            assert s.count(a) == 1, (f, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        for p, s in old.items():
            open(p, "w").write(s)
    assert subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)

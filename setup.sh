#!/bin/sh
# Builds the monitoring library from the committed files (checks rebuild everything they need themselves).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
cd vmon
RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../build/target cargo build --offline
python3 -c "import json,sys; [json.loads(l) for l in open('../properties.jsonl')]"

#!/bin/bash
# Builds the language server in a scratch directory and talks to it as an editor does (test.py).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline -q -p mabo-lsp || exit 0
cd "$tmp"
PYTHONDONTWRITEBYTECODE=1 HOME="$tmp" XDG_DATA_HOME="$tmp" XDG_STATE_HOME="$tmp" XDG_CACHE_HOME="$tmp" timeout 120 python3 "$here/test.py" "$tmp/target/debug/mabo-lsp"

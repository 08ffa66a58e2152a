#!/bin/bash
# Demonstration: builds main.rs (beside this script) against the crates in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
for f in "$here"/*.mabo "$here/Mabo.toml"; do [ -e "$f" ] && cp "$f" "$tmp/"; done
cp Cargo.lock "$tmp/Cargo.lock"
dep() { echo "$1 = { path = \"$repo/crates/$1\" }"; }
{
  echo '[package]'; echo 'name = "demo"'; echo 'version = "0.0.0"'; echo 'edition = "2024"'
  if [ -e "$tmp/src/build.rs" ]; then mv "$tmp/src/build.rs" "$tmp/build.rs"; echo 'build = "build.rs"'; fi
  echo '[workspace]'
  echo '[dependencies]'
  for d in mabo mabo-parser mabo-compiler mabo-build mabo-meta mabo-go mabo-project mabo-doc; do
    grep -q "${d//-/_}::" "$tmp/src/main.rs" && dep "$d"
  done
  if grep -q "miette::" "$tmp/src/main.rs"; then echo "miette = \"7\""; fi
  if [ -e "$tmp/build.rs" ]; then echo '[build-dependencies]'; dep mabo-build; fi
} > "$tmp/Cargo.toml"
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline -q
timeout 100 "$tmp/target/debug/demo"

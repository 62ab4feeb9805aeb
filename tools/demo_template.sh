#!/bin/bash
# Runs demo.rs (beside this file) as a test module inside a scratch copy of the crate.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -e /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
tar -C "$repo" -cf - --exclude=./target --exclude=./.git . | tar -C "$tmp" -xf -
cp "$here/demo.rs" "$tmp/src/zz_demo.rs"
printf '\n#[cfg(test)]\nmod zz_demo;\n' >> "$tmp/src/main.rs"
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$repo/target"
timeout 280 cargo test --offline zz_demo -- --test-threads 1

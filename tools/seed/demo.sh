#!/bin/bash
# Compiles demo.rs against the library built from the current tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
mapfile -t args < <(python3 "$here/externs.py")
rustc --edition 2021 --cap-lints allow -C debuginfo=0 --crate-name demo -o "$out/demo" "$here/demo.rs" "${args[@]}" || exit 3
timeout 120 "$out/demo"

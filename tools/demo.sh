#!/bin/bash
# Run in the repository's root: builds main.rs against it in a scratch crate, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp Cargo.lock "$d/"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
serde_json_path = { path = "$PWD/serde_json_path" }
serde_json_path_core = { path = "$PWD/serde_json_path_core" }
serde_json_path_macros = { path = "$PWD/serde_json_path_macros" }
serde_json = "1"
[workspace]
EOF
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet || exit 3
exec 3>&1
timeout 120 "$d/target/debug/demo" >&3

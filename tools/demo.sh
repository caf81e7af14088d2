#!/bin/bash
# Builds demo.rs (beside this file) against the repository in the current directory and runs it.
# exit 0: the promised behaviour was observed; nonzero: it was not.
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup RUSTUP_TOOLCHAIN=1.97.1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
unset REZ_PACKAGES_PATH REZ_CONFIG_FILE RUSTFLAGS
W=$(mktemp -d /tmp/rezdemo.XXXXXX); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/scratch" "$W/home"
cp "$HERE/demo.rs" "$W/src/main.rs"; cp "$REPO/Cargo.lock" "$W/Cargo.lock"
{ printf '[package]\nname = "rezdemo"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[dependencies]\nserde_json = "1.0"\ntokio = { version = "1.45", features = ["full"] }\n'
  for c in $(cat "$HERE/deps"); do echo "$c = { path = \"$REPO/crates/$c\" }"; done; } > "$W/Cargo.toml"
cd "$W" && CARGO_TARGET_DIR="$REPO/target" cargo build --offline >"$W/log" 2>&1 || { tail -30 "$W/log"; exit 3; }
cp "$REPO/target/debug/rezdemo" "$W/rezdemo"
cd "$W/scratch" && HOME="$W/home" TMPDIR="$W/scratch" timeout 120 "$W/rezdemo" "$W/scratch"

#!/bin/bash
# adds demo.rs as a test module to a scratch copy of the sources and runs it there
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf -- "$w"' EXIT
cp -r Cargo.toml Cargo.lock src "$w"/ || exit 2
[ -d target/debug ] && mkdir -p "$w/target" && cp -a target/debug "$w/target/"
cp "$here/demo.rs" "$w/src/zz_demo.rs"
printf '\n#[cfg(test)]\nmod zz_demo;\n' >> "$w/src/main.rs"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$w/target" DEMO_DIR="$w/scratch"
mkdir -p "$DEMO_DIR"
cd "$w" && timeout 280 cargo test --offline zz_demo -- --test-threads 1

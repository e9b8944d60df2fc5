#!/bin/bash
# builds the monitors from /repo: plain, with AddressSanitizer, with ThreadSanitizer, and for Miri
cd "$(dirname "$0")" || exit 1
V=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
(cd harness && CARGO_TARGET_DIR=../target cargo build --locked --offline -q --bins) || exit 1
(cd /repo && RUSTFLAGS="--cfg tokio_unstable --cfg nargun_verif" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 cargo build --locked --offline -q --bin nargun --target-dir "$V/target/prog") || exit 1
(cd asan && cargo +nightly build --locked --offline -q --bins) || exit 1
(cd tsan && cargo +nightly build --locked --offline -q --bins) || exit 1
(cd miri && MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" cargo +nightly miri run --locked --offline -q --bin none) || exit 1

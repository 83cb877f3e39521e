#!/bin/bash
# builds the tools once to show that they build (every check builds what it needs itself)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
(cd extract && cargo build --offline -q) || exit 1
(cd verus/deps && RUSTUP_TOOLCHAIN=1.98.1-x86_64-unknown-linux-gnu cargo build --offline -q) || exit 1
(cd engine && cargo build --offline -q) || exit 1

#!/bin/bash
# Nothing is kept from here (each check builds what it needs); fail early if the engine does not build.
cd "$(dirname "$0")/engine" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../build/engine cargo build -q --release --offline

#!/bin/bash
# developer helper: build one harness quickly
cd /verif/symx; export CARGO_TARGET_DIR=/verif/symx/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1
cargo rustc --offline --bin $1 "${@:2}" -- -Zthreads=8 2>&1 | grep -E '^(error|warning: unused)' -A14 | head -${LINES_MAX:-70}

#!/bin/bash
# Checks build what they need themselves; this only verifies the toolchain works offline.
cd "$(dirname "$0")" || exit 1
export PATH=/root/.cargo/bin:$PATH
mkdir -p evidence target
cargo --version && rustc --version

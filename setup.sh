#!/bin/bash
# Build the replay harness once; every check rebuilds it incrementally from /repo's working tree.
cd "$(dirname "$0")/harness" && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline --quiet

#!/bin/bash
# Builds the symbolic-execution engine and its harnesses against /repo's current tree.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=/verif/target/symx RUSTFLAGS="-A warnings" CARGO_NET_OFFLINE=true
# Decide staleness by content: file times say nothing about a checked-out tree.
sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
mkdir -p "$CARGO_TARGET_DIR"
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
	find "$CARGO_TARGET_DIR" -maxdepth 3 -path '*/.fingerprint/rdf-types-*' -prune -exec rm -rf {} +
	find "$CARGO_TARGET_DIR" -maxdepth 3 -path '*/.fingerprint/symx-*' -prune -exec rm -rf {} +
fi
cd /verif/symx && cargo build --release --offline "$@" && echo "$sum" > "$CARGO_TARGET_DIR/repo.sum"

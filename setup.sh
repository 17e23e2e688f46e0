#!/bin/bash
# Builds the whole harness once, so that each check only relinks what changed.
cd /verif/mc || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
for profile in release plain; do
    cargo build --profile $profile --offline --bins || exit 1
    RUSTFLAGS="--cfg pdf_writer_verif" CARGO_TARGET_DIR=/verif/target/hook \
        cargo build --profile $profile --offline --bin c14 || true
done

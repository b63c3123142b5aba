#!/bin/bash
# Builds the framework from the committed files (each check also builds what it needs on demand).
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
(cd vx && cargo build --offline -q) &
(cd native && cargo build --offline --release -q) &
(cd tls_api && cargo build --offline --release -q) &
(cd tls_hook && RUSTFLAGS="--cfg turtls_verif" TURTLS_VERIF_HOOKS="$PWD/../hooks" cargo build --offline --release -q) &
wait
exit 0

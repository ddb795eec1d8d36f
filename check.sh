#!/bin/bash
# check.sh PROPERTY [thorough]: builds the checker against /repo's working tree and runs one check.
cd "$(dirname "$0")/mc" || exit 3
[ -n "$2" ] && export VERIF_TIER=$2 || export VERIF_TIER=quick
export CARGO_NET_OFFLINE=true
# the crate under test is always compiled again, whatever its files' times say
rm -rf target/release/.fingerprint/cloud-storage-signature-*
cargo build --release --offline -q 2>/dev/null || { cargo build --release --offline; echo "the checker does not build against /repo" >&2; exit 2; }
exec target/release/mc "$1"

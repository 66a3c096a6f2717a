#!/bin/bash
# builds the extractor and the counterexample search (the checks rebuild the latter on every run)
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
export CARGO_NET_OFFLINE=true
(cd extract && cargo build --offline --target-dir target) && (cd replay && cargo build --offline --target-dir target) && (cd conform && cargo build --offline --target-dir target)

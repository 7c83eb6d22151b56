#!/bin/bash
# Builds the monitors once; every check rebuilds what /repo's tree changed.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
(cd harness && cargo build --offline) && (cd conc && cargo build --offline) && (cd number && cargo build --offline)

#!/bin/bash
# build the harness as the checks do (development aid)
cd /verif/harness && CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/verif/.work/htarget RUSTFLAGS='--cfg verif' cargo build --release --offline --locked 2>&1 | grep -E "^error" -A12 | head -${1:-60}

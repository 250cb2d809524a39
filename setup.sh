#!/bin/bash
# builds the model checker (offline)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=/verif/mc/target CARGO_NET_OFFLINE=true
(cd /verif/mc && cargo build --release --offline) || exit 1
mkdir -p /verif/mc/target/portable && bash /verif/portable.sh all && cd /verif/mc_port && CARGO_TARGET_DIR=/verif/mc/target/portable/t cargo build --release --offline

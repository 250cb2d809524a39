#!/bin/bash
# check.sh <property id> <quick|thorough>: rebuild the checker of a property against /repo's working tree and run it.
# exit 0: held on everything explored; 1: violation (VIOLATION line printed); 2: no answer
set -u
id=$1; tier=${2:-quick}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=/verif/mc/target CARGO_NET_OFFLINE=true
case $id in
  C01|C02|C03|C04|C05|C06|C07|C10|C11) bin=mc_nat;;
  C12|C13|C14) bin=mc_prime;;
  C15|C16|C17|C18|C19) bin=mc_int;;
  C20|C21|C22) bin=mc_rat;;
  C23|C24|C25|C26|C27) bin=mc_float;;
  C28|C29|C30) bin=mc_rand;;
  C08|C09|C31) bin=mc_mix;;
  C32) bin=mc_mem;;
  C33|C34|C36) bin=mc_port;;
  C35) bin=mc_hw;;
  C37) bin=mc_err;;
  *) echo "unknown property $id" >&2; exit 2;;
esac
if [ $bin = mc_port ]; then
  mkdir -p /verif/mc/target/portable
  bash /verif/portable.sh $([ $id = C33 ] && echo all || echo rand) || exit 2
  log=$(mktemp)
  if ! (cd /verif/mc_port && CARGO_TARGET_DIR=/verif/mc/target/portable/t cargo build --release --offline) >"$log" 2>&1; then
    tail -40 "$log" >&2; rm -f "$log"; echo "ERROR: build failed" >&2; exit 2
  fi
  rm -f "$log"
  exec /verif/mc/target/portable/t/release/mc_port "$id" "$tier"
fi
# cargo decides by modification times whether rmath is stale; decide by content
sum=$(cd /repo && cat Cargo.toml build.rs $(find src -type f -name '*.rs' | LC_ALL=C sort) | sha256sum)
stamp=/verif/mc/target/release/.rmath-content
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  rm -rf /verif/mc/target/release/.fingerprint/rmath-*
  mkdir -p /verif/mc/target/release && echo "$sum" >"$stamp"
fi
log=$(mktemp)
if ! (cd /verif/mc && cargo build --release --offline --bin $bin) >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"; echo "ERROR: build failed" >&2; exit 2
fi
rm -f "$log"
exec /verif/mc/target/release/$bin "$id" "$tier"

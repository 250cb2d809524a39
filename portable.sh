#!/bin/bash
# portable.sh all|rand: prepares mc/target/portable/rmath, /repo's working tree with the x86-specific code paths switched off
# (rand: only those of the random sources)
set -e
d=/verif/mc/target/portable/rmath; mkdir -p "$d"; n=$(mktemp -d /verif/mc/target/portable/new.XXXXXX)
cp -r /repo/src "$n/src"; cp /repo/Cargo.toml "$n/"
dirs="$n/src/rand"; cp /repo/build.rs "$n/"
if [ "$1" = all ]; then dirs="$dirs $n/src/bigint"; printf 'fn main() {}\n' > "$n/build.rs"; fi
find $dirs -name '*.rs' -print0 | xargs -0 sed -i -E 's/target_arch *= *"x86(_64)?"/target_arch = "rmath_portable"/g'
rm -rf "$d"; mv "$n" "$d"

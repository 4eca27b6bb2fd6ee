#!/bin/bash
# build.sh sim|simrubi: builds one simulator offline from /repo's working tree.
root=$(cd "$(dirname "$0")" && pwd)
cd "$root/$1" || exit 2
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=$root/sim/rustc_wrap.sh RUSTC_BOOTSTRAP=calcu_$1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
# Cargo decides by modification times what to build again; a tree that was
# checked out or restored can have any. Decide by content.
sum=$( (find /repo/src /repo/macros/src /repo/Cargo.toml /repo/macros/Cargo.toml "$root/sim/ops" "$root/sim/rt" "$root/sim/rustc_wrap.sh" "$root/$1" \
  \( -path '*/target' -o -path '*/gen' \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
mkdir -p target
exec 9>target/.build_lock
flock 9
if [ "$(cat target/.sum 2>/dev/null)" = "$sum" ] && [ -x target/debug/calcu_$1 ]; then exit 0; fi
rm -f target/.sum
for f in /repo/src/lib.rs /repo/macros/src/lib.rs; do :; done
rm -rf target/debug/.fingerprint/calcu* target/debug/.fingerprint/rubi* 
[ -x gen.sh ] && { ./gen.sh || exit 2; }
cargo build --offline || exit 2
echo "$sum" > target/.sum

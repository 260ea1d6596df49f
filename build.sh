#!/bin/bash
# build.sh [address|thread]: builds the monitors with swrs as it is in /repo's working tree; with a sanitizer, into a folder
# of its own, and prints where the executable is
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
tool=; opt=
if [ -n "$1" ]; then
	CARGO_TARGET_DIR="$PWD/target-$1"; tool=+nightly; opt="--target x86_64-unknown-linux-gnu"
	export RUSTFLAGS="-Zsanitizer=$1 -Cforce-frame-pointers=yes"
	[ "$1" = thread ] && opt="$opt -Zbuild-std"
fi
# mtimes of a checked out tree say nothing: swrs itself is always compiled anew
cargo $tool clean -q --release --offline ${1:+--target x86_64-unknown-linux-gnu} -p swrs 2>/dev/null
log=$(cargo $tool build -q --release --offline $opt 2>&1) || { echo "$log" | tail -60 >&2; echo "BUILD-FAILED" >&2; exit 2; }
[ -n "$1" ] && echo "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/swrs-monitor"
exit 0

#!/bin/bash
# check.sh <property>: rebuilds from /repo and decides one property; see DESIGN.md
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
ulimit -c 0
bash build.sh || exit 2
# besides, the same workload under a sanitizer: threads for C23, memory for C01, and for all in the thorough tier
case "$1 $VERIF_TIER" in
	C23*) san=thread ;;
	C01* | *thorough) san=address ;;
esac
if [ -n "$san" ]; then
	exe=$(bash build.sh $san) && export VERIF_SAN_BUILD="$san=$exe" || { echo "SANITIZER-BUILD-FAILED"; exit 2; }
fi
exec harness/target/release/swrs-monitor check "$1"

#!/bin/bash
# run.sh <property> [tier]: builds what the check needs from /repo's working tree
# and runs it. Exit 0 held, 1 violated, 2 no answer.
set -u
id=$1
tier=${2:-${VERIF_TIER:-quick}}
. /verif/tools/env.sh
cd /verif || exit 2
mkdir -p work evidence
if [ "$id" = C26 ]; then
    build_wasm || exit 2
    exec /verif/target/wasm/debug/vwasm run "$id" "$tier"
fi
build_mon || exit 2
case $id in C17 | C18 | C19 | C20 | C25) build_cli || exit 2 ;; esac
case $id in C21) build_macros || exit 2 ;; esac
case $id in C22) build_asan && build_tsan && build_miri || exit 2 ;; esac
case $id in C24) build_tk && build_tsan || exit 2 ;; esac
exec "$MON/debug/vwmon" run "$id" "$tier"

#!/bin/bash
# Builds everything once, so that a broken toolchain shows here first.
. /verif/tools/env.sh
mkdir -p /verif/work /verif/evidence
build_mon && build_cli && build_macros && build_wasm && build_tk && build_tsan && build_asan && build_miri

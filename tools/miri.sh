#!/bin/bash
# miri.sh SEED CASE: small pages in the interpreter
. /verif/tools/env.sh
miri run --offline -q --bin vwmon -- sanitized small "$1" "$2"

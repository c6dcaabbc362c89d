#!/bin/bash
# Builds the framework from the committed files, offline.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export VERIF_ROOT=$PWD
. tools/build.sh
rc=0
for p in libcheck clicheck sbtc-cli-shadow romeocheck claritycheck; do build_pkg $p || rc=1; done
python3 tools/c16.py --setup || rc=1
mkdir -p evidence replays
exit $rc

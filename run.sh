#!/bin/bash
# Usage: run.sh <PROPERTY> [thorough]   (VERIF_SEED, VERIF_TIER, VERIF_REPLAY from the environment)
# Builds what the check needs from /repo's working tree and runs it.
# exit 0 held, 1 VIOLATION, 3 harness problem / no answer.
id=$1
[ "$2" = thorough ] && export VERIF_TIER=thorough
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export VERIF_ROOT=$PWD
. tools/build.sh
case $id in
  C16) exec python3 tools/c16.py ;;
  C2[1-4]) pkg=clicheck ;;
  C3*) pkg=romeocheck ;;
  C5*) pkg=claritycheck ;;
  *) pkg=libcheck ;;
esac
t0=$(date +%s.%N)
build_pkg $pkg || { echo "build failed for $pkg" >&2; exit 3; }
if [ $pkg = clicheck ]; then build_pkg sbtc-cli-shadow || { echo "build failed" >&2; exit 3; }; fi
export VERIF_BUILD_S=$(echo "$(date +%s.%N) - $t0" | bc 2>/dev/null || echo 0)
mkdir -p evidence replays
limit=600; [ "$VERIF_TIER" = thorough ] && limit=3600
timeout -k 10 $limit "$CARGO_TARGET_DIR/debug/$pkg" "$id"
rc=$?
if [ $rc = 134 ] || [ $rc = 139 ]; then
  # SIGABRT/SIGSEGV: stack overflow, allocation failure or memory error in the code under test
  r=$VERIF_ROOT/replays/$id-crash.json
  echo "{\"property\":\"$id\",\"seed\":${VERIF_SEED:-1},\"signature\":\"process-crash\",\"exit\":$rc}" > "$r"
  echo "VIOLATION property=$id replay=$r"
  echo "  [process-crash] check process died with status $rc while running code under test"
  exit 1
fi
[ $rc = 0 ] || [ $rc = 1 ] || exit 3
exit $rc

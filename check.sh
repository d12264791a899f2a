#!/bin/sh
# check.sh PROPERTY          rebuilds from /repo and searches for a violation of the property
# check.sh replay FILE       rebuilds from /repo and executes a replay file
# check.sh determinism [N]   executes N runs of every property at several worker counts and compares the event logs
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough), REZIP_RUNS, REZIP_WALL, REZIP_WORKERS.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
sh "$here/build.sh" || exit 2
export REZIP_VERIF="$here"
sim="$here/target/sim/release/rezip-sim"
case "$1" in
replay) exec "$sim" replay "$2" ;;
determinism) exec "$sim" determinism "${2:-2000}" ;;
*) exec "$sim" check "$1" ;;
esac

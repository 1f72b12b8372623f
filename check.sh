#!/bin/bash
# bash check.sh <property id> [--replay <space> <index>]
# 0: held on everything explored; 1: VIOLATION; anything else: the check could not run.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
id="$1"
case "$id" in
  L*|N*|W*) build_a || exit 2; exec "$VERIF/target-a/release/mc_crates" "$@" ;;
  I*) build_b || exit 2; exec "$VERIF/target-b/release/mc_ida" "$@" ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac

#!/bin/bash
# run.sh <property> [--stage NAME --idx N]   builds the monitors from /repo's working tree and runs one check
. "$(dirname "$0")/env.sh"
id=$1; shift
tier=${VERIF_TIER:-quick}; seed=${VERIF_SEED:-1}
[ "${1:-}" = thorough ] && { tier=thorough; shift; }
work=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export VERIF_WORK=$work
race=
grep -q "^$id race" "$VERIF_ROOT/race.txt" && race=-race
cd "$VERIF_ROOT/harness" || exit 2
if ! go build -buildvcs=false $race -o "$work/vrun" . 2>"$work/build.log"; then
  cat "$work/build.log" >&2
  echo "build of the monitors against /repo failed" >&2
  exit 2
fi
if [ "${1:-}" = --stage ]; then
  "$work/vrun" replay -prop "$id" -tier "$tier" -seed "$seed" -root "$VERIF_ROOT" -stage "$2" -idx "$4"
  exit $?
fi
"$work/vrun" check -prop "$id" -tier "$tier" -seed "$seed" -root "$VERIF_ROOT"

#!/bin/bash
# onrepo.sh DIR [Cxx...]: runs checks (all of them by default) against the tree in DIR instead of /repo, in a scratch copy.
set -u
. /verif/env.sh
src=$1; shift
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/harness" "$w/tmp"; cp /verif/harness/*.go /verif/harness/go.mod "$w/harness/"; cp /verif/harness/go.sum "$w/harness/" 2>/dev/null
sed -i "s#=> /repo#=> $src#" "$w/harness/go.mod"; sed -i "s#\"/repo\"#\"$src\"#" "$w/harness/props_ex.go"
cd "$w/harness"
go build -buildvcs=false -o "$w/v0" . && go build -buildvcs=false -race -o "$w/v1" . || exit 9
for c in ${@:-$(seq -f C%02g 1 31)}; do
	b=$w/v0; case $c in C17|C20|C21) b=$w/v1;; esac
	VERIF_ROOT=$w VERIF_WORK=$w/tmp VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 1800 "$b" check -prop $c -root "$w" > "$w/o" 2>&1; rc=$?
	[ $rc = 0 ] || { echo "$c exit $rc"; tail -12 "$w/o" | cut -c1-900; }
	[ $rc != 0 ] || tail -1 "$w/o"
done

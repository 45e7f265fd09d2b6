#!/bin/bash
# usage: try.sh SCRATCH ID...: confirms each seeded bug in a scratch copy of
# /repo (builds, passes the stable tests, demo 0 without and nonzero with) and
# runs the property's check against it.
here=$(cd "$(dirname "$0")/../.." && pwd)
s=$1; shift
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
for id in "$@"; do
	git -C "$s" checkout -q .
	t=$(mktemp -d)
	cp -r "$here/seeded/$id/." "$t"; rm -f "$t/patch.diff" "$t/meta.json"
	(cd "$s" && bash "$t/demo.sh" > "$t/out0" 2>&1); r0=$?
	git -C "$s" apply "$here/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
	(cd "$s" && bash "$t/demo.sh" > "$t/out1" 2>&1); r1=$?
	(cd "$s" && go vet ./authorization ./basic_auth ./flow ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope && go test ./authorization ./basic_auth ./flow ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope) > "$t/tests" 2>&1; rt=$?
	p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
	touch "$t/check"; rc=1
	if [ -z "$NOCHECK" ]; then
		VERIF_REPO=$s VERIF_EVIDENCE=$t/ev.json VERIF_REPLAYS=$t VERIF_SEED=${VERIF_SEED:-1} "$here/check.sh" $p > "$t/check" 2>&1
		rc=$?
	fi
	[ $r0 = 0 ] && [ $r1 = 1 ] && [ $rt = 0 ] && [ $rc = 1 ] && v=ok || v=PROBLEM
	echo "$id $p $v demo=$r0/$r1 tests=$rt check=$rc $(head -1 $t/check | cut -c1-160)"
	[ $v = ok ] || { head -5 "$t/out0" "$t/out1"; [ $rt = 0 ] || grep -v '^ok\|no test files' "$t/tests" | head; [ $rc = 1 ] || tail -5 "$t/check"; }
	git -C "$s" checkout -q .
	/bin/rm -rf "$t"
done

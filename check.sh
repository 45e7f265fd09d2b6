#!/bin/bash
# usage: check.sh ID [--replay FILE]
# Decides one property on /repo's working tree. Exit 0: held on everything
# explored; 1: violated (VIOLATION line); 2: the check itself failed.
id=${1:?usage: check.sh ID [--replay FILE]}
here=$(cd "$(dirname "$0")" && pwd)
if [ "$2" = "--replay" ]; then
	VERIF_REPLAY=$(realpath "$3") || exit 2
	export VERIF_REPLAY
fi
repo=${VERIF_REPO:-/repo}
seed=${VERIF_SEED:-1}
case $seed in *[!0-9]* | '') seed=1 ;; esac
tier=${VERIF_TIER:-quick}
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=readonly GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=readonly
unset GODEBUG
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT

pkg=props
race=
case $id in
L06) pkg=keys ;;
esac
[ "$id" = X04 ] && race=-race

# /repo's go.mod is not tracked there; jwk_endpoint.go needs a module that is
# not installed, so only the package that examines it sees it.
rep=
add() { rep="$rep${rep:+,}\"$1\":\"$2\""; }
[ $pkg = props ] && [ -f "$repo/jwk_endpoint.go" ] && add "$repo/jwk_endpoint.go" ""
[ -f "$repo/go.mod" ] || add "$repo/go.mod" "$here/harness/fallback/repo.mod"
echo "{\"Replace\":{$rep}}" > "$work/overlay.json"
mod=
if [ "$repo" != /repo ]; then
	sed "s#=> /repo#=> $repo#; s#=> ./shim#=> $here/harness/shim#" "$here/harness/go.mod" > "$work/go.mod"
	cp "$here/harness/go.sum" "$work/go.sum"
	mod="-modfile=$work/go.mod"
fi

cd "$here/harness" || exit 2
if ! go test $mod $race -c -vet=off -overlay "$work/overlay.json" -o "$work/t" ./$pkg > "$work/build.log" 2>&1; then
	echo "BUILD-ERROR property=$id"
	tail -30 "$work/build.log"
	exit 2
fi

limit=840
[ "$tier" = thorough ] && limit=${VERIF_LIMIT:-5400}
export VERIF_BUDGET=$((limit * 3 / 4))
export VERIF_PROP=$id VERIF_TIER=$tier VERIF_SEED=$seed
export VERIF_EVIDENCE=${VERIF_EVIDENCE:-$here/evidence/$id.json}
export VERIF_REPLAYS=${VERIF_REPLAYS:-$here/replays} VERIF_CORPUS=$here/corpus
export GORACE="halt_on_error=0 exitcode=66 log_path=$work/race"
# The search is shared by several processes, each with its own seed; the first
# also does what is done once (saved inputs, enumerated parts).
shards=${VERIF_SHARDS:-6}
[ -n "$VERIF_REPLAY" ] && shards=1
evidence=$VERIF_EVIDENCE
[ $shards -gt 1 ] && export GOMAXPROCS=2
i=0
while [ $i -lt $shards ]; do
	(
		cd "$work" || exit 2
		export VERIF_SHARD=$i VERIF_STATUS=$work/status.$i VERIF_EVIDENCE=$work/evidence.$i
		timeout -k 5 "$limit" "$work/t" -test.run '^TestProp$' -test.timeout 0 -rapid.seed=$((seed + 1000003 + i * 7368787)) -rapid.nofailfile -rapid.shrinktime=${VERIF_SHRINK:-20s} > "$work/out.$i" 2>&1
		echo "shard $i: exit $?" >> "$work/out.$i"
	) &
	i=$((i + 1))
done
wait
cat "$work"/out.? > "$work/out.log"
status=$(python3 "$here/tools/merge.py" "$work" "$shards" "$evidence" 2>> "$work/out.log") || status=error
python3 - "$work/status.json" "$id" <<'P'
import json, sys
try:
    s = json.load(open(sys.argv[1]))
except Exception:
    sys.exit()
for k in s.get("Known") or []:
    print("KNOWN-FINDING: property=%s %s" % (sys.argv[2], k))
for f in (s.get("Fail") or [])[:8]:
    print("  " + f[:1500])
P
case $status in
ok) exit 0 ;;
violation)
	f=$(sed -n 's/^ "Replay": "\(.*\)",$/\1/p' "$work/status.json")
	echo "VIOLATION property=$id replay=$f"
	exit 1
	;;
esac
echo "CHECK-ERROR property=$id"
tail -40 "$work/out.log"
exit 2

#!/bin/bash
# Run in /repo: exit 0 if the property holds for the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=readonly
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$d"' EXIT
cp -r "$here/main.go" "$here/kit.go" "$here/world" "$d/"
cp "$here/demo.mod" "$d/go.mod"
cp "$here/demo.sum" "$d/go.sum"
sed -i "s#=> REPO#=> $repo#" "$d/go.mod"
over=
if [ -d "$here/go-jwx" ]; then
	cp -r "$here/go-jwx" "$d/"
else
	over="\"$repo/jwk_endpoint.go\":\"\""
fi
[ -f "$repo/go.mod" ] || over="$over${over:+,}\"$repo/go.mod\":\"$here/repo.mod\""
echo "{\"Replace\":{$over}}" > "$d/overlay.json"
cd "$d" || exit 9
go build -overlay overlay.json -o demo . || exit 9
timeout 120 ./demo

#!/bin/bash
# Builds the harness against the rodkina working tree (RODKINA_REPO, default /repo) and prints the binary's path.
# Nothing is written in the tree: fslock is copied out of its vendor folder, the modfile lives in the build folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=${RODKINA_REPO:-/repo}
out=${VERIF_BUILD:-$here/.build}
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1 GOWORK=off
mkdir -p "$out/fslock" || exit 1
cp -f "$repo"/vendor/github.com/juju/fslock/*.go "$out/fslock/" || exit 1
printf 'module github.com/juju/fslock\n\ngo 1.16\n' > "$out/fslock/go.mod"
sed -e "s#=> /repo#=> $repo#" "$here/harness/go.mod" > "$out/go.mod"
echo "replace github.com/juju/fslock => $out/fslock" >> "$out/go.mod"
cp -f "$here/harness/go.sum" "$out/go.sum" 2>/dev/null
cd "$here/harness" || exit 1
if [ "$1" = fault ]; then
	# the same harness, with package os replaced by verif/faultos in rodkina's own files
	rm -rf "$out/overlay" && mkdir -p "$out/overlay" || exit 1
	go run -modfile="$out/go.mod" ./tools/overlay "$(cd "$repo" && pwd -P)" "$out/overlay" >&2 || exit 1
	go build -modfile="$out/go.mod" -overlay "$out/overlay/overlay.json" -o "$out/harness-fault" . >&2 || exit 1
	echo "$out/harness-fault"
	exit 0
fi
go build -modfile="$out/go.mod" -o "$out/harness" . >&2 || exit 1
echo "$out/harness"

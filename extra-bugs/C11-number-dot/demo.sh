#!/bin/bash
# Runs in the root of the repository after the build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/tsh" . || exit 2
cp -r std "$tmp/std"
mkdir "$tmp/out" "$tmp/run"
cp -r "$here/src" "$tmp/src"
n=$(printf 'a%.0s' $(seq 300))
echo "$n := 1
print($n)" > "$tmp/p.tsh"
"$tmp/tsh" -i "$tmp/p.tsh" -o "$tmp/out" -t bash || { echo "rejected"; exit 1; }
[ "$(bash "$tmp/out/p.sh")" = 1 ] || exit 1
exit 0

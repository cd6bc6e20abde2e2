#!/bin/bash
# Runs in the root of the repository after the build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/tsh" . || exit 2
cp -r std "$tmp/std"
mkdir "$tmp/out" "$tmp/run"
cp -r "$here/src" "$tmp/src"
"$tmp/tsh" -i "$tmp/src/main.tsh" -o "$tmp/out" -t bash >"$tmp/log" 2>&1
grep -q "row 3" "$tmp/log" || { head -1 "$tmp/log"; exit 1; }
exit 0

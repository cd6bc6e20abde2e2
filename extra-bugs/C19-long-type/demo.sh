#!/bin/bash
# Runs in the root of the repository after the build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/tsh" . || exit 2
cp -r std "$tmp/std"
mkdir "$tmp/out" "$tmp/run"
cp -r "$here/src" "$tmp/src"
"$tmp/tsh" -i "$tmp/src/main.tsh" -t batch -t bash -o "$tmp/out" --type batch || exit 2
[ -f "$tmp/out/main.sh" ] && [ -f "$tmp/out/main.bat" ]

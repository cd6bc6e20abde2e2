#!/bin/bash
# Runs in the root of the repository after the build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/tsh" . || exit 2
cp -r std "$tmp/std"
mkdir "$tmp/out" "$tmp/run"
cp -r "$here/src" "$tmp/src"
"$tmp/tsh" -i "$tmp/src/main.tsh" -o "$tmp/out" -t bash || exit 2
cp "$tmp/out/main.sh" "$tmp/one.sh"
touch -d 2001-02-03 "$tmp/src/mod.tsh"
"$tmp/tsh" -i "$tmp/src/main.tsh" -o "$tmp/out" -t bash || exit 2
cmp "$tmp/one.sh" "$tmp/out/main.sh"

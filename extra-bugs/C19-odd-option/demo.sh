#!/bin/bash
# Runs in the root of the repository after the build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/tsh" . || exit 2
cp -r std "$tmp/std"
mkdir "$tmp/out" "$tmp/run"
cp -r "$here/src" "$tmp/src"
if "$tmp/tsh" -i "$tmp/src/main.tsh" -o "$tmp/out" -t bash -x y >/dev/null 2>&1; then echo "unknown option is accepted"; exit 1; fi
[ ! -e "$tmp/out/main.sh" ]

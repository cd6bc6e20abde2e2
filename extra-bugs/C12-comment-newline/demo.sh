#!/bin/bash
# Runs in the root of the repository after the build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/tsh" . || exit 2
cp -r std "$tmp/std"
mkdir "$tmp/out" "$tmp/run"
cp -r "$here/src" "$tmp/src"
for t in bash batch; do
	if ! timeout 60 "$tmp/tsh" -i "$tmp/src/main.tsh" -o "$tmp/out" -t $t >"$tmp/log" 2>&1; then
		cat "$tmp/log"; echo "valid program is rejected ($t)"; exit 1
	fi
done
exit 0

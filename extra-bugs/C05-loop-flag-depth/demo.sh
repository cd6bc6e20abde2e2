#!/bin/bash
# Runs in the root of the repository after the build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/tsh" . || exit 2
cp -r std "$tmp/std"
mkdir "$tmp/out" "$tmp/run"
cp -r "$here/src" "$tmp/src"
if ! timeout 60 "$tmp/tsh" -i "$tmp/src/main.tsh" -o "$tmp/out" -t batch >"$tmp/log" 2>&1; then
	cat "$tmp/log"; echo "valid program is rejected"; exit 1
fi
mkdir "$tmp/sim"
cp "$here"/sim/* "$tmp/sim/"
for f in "$tmp"/sim/*.txt; do mv "$f" "${f%.txt}"; done
(cd "$tmp/sim" && GOFLAGS=-mod=mod go build -o "$tmp/cmdsim" .) || exit 2
cd "$tmp/run"
timeout 60 "$tmp/cmdsim" "$tmp/out/main.bat" >"$tmp/stdout" 2>"$tmp/stderr" </dev/null
rc=$?
if [ $rc -ne 0 ]; then echo "exit status $rc, expected 0"; cat "$tmp/stderr"; exit 1; fi
if ! diff "$here/expected.txt" "$tmp/stdout"; then cat "$tmp/stderr"; exit 1; fi
exit 0

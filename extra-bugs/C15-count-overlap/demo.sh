#!/bin/bash
# Runs in the root of the repository after the build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/tsh" . || exit 2
cp -r std "$tmp/std"
mkdir "$tmp/out" "$tmp/run"
cp -r "$here/src" "$tmp/src"
if ! timeout 60 "$tmp/tsh" -i "$tmp/src/main.tsh" -o "$tmp/out" -t bash >"$tmp/log" 2>&1; then
	cat "$tmp/log"; echo "valid program is rejected"; exit 1
fi
cd "$tmp/run"
timeout 20 bash "$tmp/out/main.sh" >"$tmp/stdout" 2>"$tmp/stderr" </dev/null
rc=$?
if [ $rc -ne 0 ]; then echo "exit status $rc, expected 0"; cat "$tmp/stderr"; exit 1; fi
if ! cmp -s "$tmp/stdout" "$here/expected.txt"; then
	echo "unexpected output:"; diff "$here/expected.txt" "$tmp/stdout"; cat "$tmp/stderr"; exit 1
fi
if [ -s "$tmp/stderr" ]; then echo "stderr is not empty:"; cat "$tmp/stderr"; exit 1; fi
exit 0

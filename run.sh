#!/bin/bash
# run.sh ID [args]: builds the harness and tsh from /repo's working tree into a scratch directory and runs check ID.
set -u
ID=$1
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0 GOTOOLCHAIN=local LANG=C.UTF-8
export GOCACHE=${GOCACHE:-${HOME:-/root}/.cache/go-build}
export VERIF_ROOT=$here VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
case "$here" in ""|/) echo "bad location" >&2; exit 2;; esac
work=$(mktemp -d /tmp/vh.XXXXXXXX) || exit 2
chmod 755 "$work"
trap 'rm -rf "$work"' EXIT
mkdir -p "$here/evidence"
rm -f "$here/evidence/$ID.json" "$here/replays/$ID"-*.txt
mod=()
race=()
[ -n "${VERIF_RACE:-}" ] && race=(-race) && export CGO_ENABLED=1 # development: race detector over the harness itself
if [ "$repo" != /repo ]; then # development: another copy of the repository
  sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" > "$work/go.mod"; cp "$here/harness/go.sum" "$work/go.sum"
  mod=(-modfile="$work/go.mod")
fi
if ! (cd "$here/harness" && go build "${race[@]}" "${mod[@]}" -o "$work/vh" . && cd "$repo" && go build -o "$work/tsh" .) >&2; then
  echo "build failed" >&2
  exit 2
fi
cp -r "$repo/std" "$work/std" || exit 2
chmod -R a+rX "$work"
"$work/vh" check "$@"
exit $?

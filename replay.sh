#!/bin/bash
# replay.sh FILE : run one replay file against /repo's working tree, with a log of every step
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/build.sh"
b="$(sed -n 's/^build //p' "$1")"
if [ "$b" = every ]; then
  # the property is the agreement of the builds: run the history in each and compare the logs
  t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
  for b in native portable; do
    build "$b" || exit 2
    timeout 120 "$ROOT/target/$b/release/rmath-sim" replay "$1" >"$t/$b"; echo "exit $?" >>"$t/$b"
  done
  cat "$t/native"
  diff "$t/native" "$t/portable" && exit 0
  echo "class=builds-disagree"
  exit 1
fi
build "$b" || exit 2
exec timeout 120 "$ROOT/target/$b/release/rmath-sim" replay "$1"

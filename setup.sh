#!/bin/bash
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/build.sh"
build native && build portable || exit 1
"$ROOT/target/native/release/rmath-sim" selftest

#!/bin/bash
# run.sh PROPERTY [quick|thorough] : build from /repo's working tree and decide one property
ROOT="$(cd "$(dirname "$0")" && pwd)"
PROP="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; SEED="${VERIF_SEED:-1}"
. "$ROOT/build.sh"
BUILDS="native portable"
case "$PROP" in
  C01|C02|C03|C12) BUILDS="native";;
  C11|C13) BUILDS="portable";;
esac
for b in $BUILDS; do build "$b" || { echo "cannot build the $b simulator from /repo"; exit 2; }; done
SUP="$ROOT/target/${BUILDS%% *}/release/rmath-sim"
cd "$ROOT" || exit 2
exec "$SUP" check "$PROP" "$TIER" "$SEED" "$ROOT" "$ROOT/target/native/release/rmath-sim" "$ROOT/target/portable/release/rmath-sim"

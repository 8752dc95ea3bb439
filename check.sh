#!/bin/bash
# check.sh PROPERTY [quick|thorough|replay FILE]
# Builds the property's explorer against /repo's current working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
prop="$1"; mode="${2:-quick}"; shift; shift || true
bin="$(echo "$prop" | tr A-Z a-z)"
crate=mc
[ -f "$here/mctls/src/bin/$bin.rs" ] && crate=mctls
export VERIF_DIR="$here"
[ -n "$VERIF_TARGET" ] || export CARGO_TARGET_DIR="$here/target"
cd "$here/$crate" || exit 2
log="$(mktemp)"
# instruction-level checks look at the code as it ships; some look at both builds
profs=dev
case "$bin" in
  c21|c22) profs=trace ;;
  c05|c28) profs="dev trace" ;;
esac
pids=
for p in $profs; do
  cargo build --offline --locked --profile $p --bin "$bin" >"$log.$p" 2>&1 &
  pids="$pids $!"
done
rc=0
for p in $pids; do wait "$p" || rc=1; done
if [ $rc -ne 0 ]; then for p in $profs; do tail -60 "$log.$p"; done; fi
for p in $profs; do rm -f "$log.$p"; done
rm -f "$log"
[ $rc -eq 0 ] || { echo "build failed"; exit 2; }
case "$profs" in dev*) dir=debug ;; *) dir=trace ;; esac
exec "$CARGO_TARGET_DIR/$dir/$bin" "$mode" "$@"

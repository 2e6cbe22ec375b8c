#!/bin/bash
# check.sh PROPERTY [TIER] — rebuild the simulator against /repo's working tree and decide one property.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_INCREMENTAL=1
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
b=./build.sh
[ "$id" = C18 ] && b="./build.sh && ./cli.sh"
if ! bash -c "$b" > build.$$.log 2>&1; then
  tail -60 build.$$.log >&2
  rm -f "build.$$.log"
  echo "check $id: the simulator does not build against /repo" >&2
  exit 3
fi
rm -f "build.$$.log"
exec ./target/release/nomsim check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}"

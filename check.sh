#!/bin/bash
# check.sh ID quick|thorough - decides one property by simulation of /repo's current tree.
# exit 0: held on everything explored; 1: VIOLATION; 2: could not decide.
V=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}
secs=18; [ "$tier" = thorough ] && secs=${VERIF_SECS:-600}
bin=$("$V/sim/build.sh") || { echo "ERROR: the simulator could not be built from /repo" >&2; exit 2; }
mkdir -p "$V/evidence" "$V/.build/replays"
exec "$bin" check -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -secs "$secs" -known "$V/known_findings.json" \
  -evidence "$V/evidence/$id.json" -replays "$V/.build/replays"

#!/bin/bash
# runall.sh RUNS SECS TIER
here="$(cd "$(dirname "$0")" && pwd)"
export LAZSIM_RUNS=$1 LAZSIM_SECS=$2 VERIF_DIR=/tmp/vd VERIF_SEED=${SEED:-1}
mkdir -p /tmp/vd; cp -f $here/../known_findings.txt /tmp/vd/ 2>/dev/null
for id in ${IDS:-$($here/target/${DIR:-release}/lazsim list)}; do
  echo "=== $id"
  timeout 900 $here/target/${DIR:-release}/lazsim check $id ${3:-quick} 2>&1 | cut -c1-600 | tail -6
done

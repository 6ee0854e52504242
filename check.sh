#!/bin/bash
# usage: check.sh PROPERTY TIER [extra arguments of tfv.run]
# Builds the custom operations of /repo's current tree, then decides the property.
cd "$(dirname "$0")" || exit 2
prop=$1; tier=$2; shift 2
. /opt/vp/env.sh
export VERIF_TIER=$tier PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3
(
  flock 9
  build_ops >/tmp/tfv_build.$$.log 2>&1 || { cat /tmp/tfv_build.$$.log >&2; }
  rm -f /tmp/tfv_build.$$.log
) 9>/tmp/tfv_build.lock
exec python -m tfv.run "$prop" --tier "$tier" "$@"

#!/bin/bash
# run.sh <property id> [quick|thorough]   -- decide one property against /repo's working tree
# run.sh replay <file>                    -- re-run a recorded counterexample on the real code
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONPATH=${VF_REPO:-/repo}:$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}"
[ -n "$2" ] && [ "$1" != replay ] && export VERIF_TIER="$2"
export VERIF_TIER="${VERIF_TIER:-quick}"
export MPLCONFIGDIR="${TMPDIR:-/tmp}/vf-mpl.$$" XDG_CACHE_HOME="${TMPDIR:-/tmp}/vf-cache.$$" XDG_CONFIG_HOME="${TMPDIR:-/tmp}/vf-cfg.$$"
mkdir -p "$MPLCONFIGDIR" "$XDG_CACHE_HOME" "$XDG_CONFIG_HOME"
/opt/venv/bin/python -m vf.driver "$@"
rc=$?
rm -rf "$MPLCONFIGDIR" "$XDG_CACHE_HOME" "$XDG_CONFIG_HOME"
exit $rc

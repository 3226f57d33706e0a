#!/bin/bash
# bash check.sh <PROPERTY> [quick|thorough]   -- runs one property's monitors against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export JAX_PLATFORMS=cpu NETKET_EXPERIMENTAL_SHARDING=0 FLAX_RETURN_FROZENDICT=1
export OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_btl=self OMPI_MCA_pml=ob1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 MPI4JAX_NO_WARN_JAX_VERSION=1
export NETKET_SPIN_ORDERING_WARNING=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
# numba's own sanitizer: every array access of the compiled operator kernels is bounds checked
export NUMBA_BOUNDSCHECK=1 NUMBA_DISABLE_PERFORMANCE_WARNINGS=1
export NUMBA_CACHE_DIR=/tmp/gv_numba_$$
export PYTHONPATH=${GV_REPO:-/repo}:$(pwd)
export GV_REPO=${GV_REPO:-/repo}
[ -n "$2" ] && export VERIF_TIER=$2
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
${GV_PY:-/opt/venv/bin/python} -m gv.run "$1"
rc=$?
rm -rf "/tmp/gv_numba_$$"
exit $rc

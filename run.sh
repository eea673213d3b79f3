#!/bin/bash
# bash /verif/run.sh <property id> [--tier quick|thorough] [--only scenario] [--replay file]
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$HERE:${VERIF_REPO:-/repo}/src"
export PYTHONWARNINGS=ignore MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-$(mktemp -d /tmp/verif_mpl.XXXXXX)}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_plm=isolated OMPI_MCA_hwloc_base_binding_policy=none
cd "$HERE" || exit 3
/opt/venv/bin/python -m harness.core "$@"
rc=$?
case "$MPLCONFIGDIR" in /tmp/verif_mpl.*) /bin/rm -rf "$MPLCONFIGDIR";; esac
exit $rc

#!/bin/bash
# usage: run.sh PXX quick|thorough [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 \
  OMPI_MCA_ess_singleton_isolated=1 PYTHON_JULIAPKG_OFFLINE=yes \
  GWECC_VERIF=1 HOME="${HOME:-/root}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m mc.core "$@"

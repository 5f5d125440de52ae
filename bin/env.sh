# Pinned process environment of every simulated run.
cd "$here" || exit 2
export OASIM_REPO="${OASIM_REPO:-/repo}"
export PYTHONPATH="$OASIM_REPO:$here"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_NUM_THREADS="${NUMBA_NUM_THREADS:-4}"
export DASK_SCHEDULER=synchronous
export TZ=UTC LC_ALL=C.UTF-8
OASIM_PYTHON="${OASIM_PYTHON:-/opt/venv/bin/python}"

# environment of every check (sourced)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export HYPOTHESIS_NO_PLUGINS=1
export PYTHONPATH="$HERE"
PY=/opt/venv/bin/python
cd "$HERE" || exit 3

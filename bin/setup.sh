#!/bin/bash
# Nothing to install: hypothesis is taken from the pre-installed tooling venv
# (harness/core.py, bootstrap()).  This only checks that the pieces are there.
HERE=$(cd "$(dirname "$0")/.." && pwd)
. "$HERE/bin/env.sh"
exec "$PY" -c "from harness import core; import hypothesis, numpy; print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)"

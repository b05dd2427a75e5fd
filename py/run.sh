#!/bin/bash
# run.sh <id> [args]: run one Python check against the package built by build.sh.
D="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/common.sh ] && . /opt/vp/common.sh >/dev/null 2>&1
set +e
B="$1"; shift
SP=/opt/veriftools/pyvenv/lib/python3.12/site-packages
mkdir -p "$D/.build/hyp"
for f in "$SP"/hypothesis "$SP"/sortedcontainers "$SP"/_hypothesis*; do [ -e "$f" ] && ln -sfn "$f" "$D/.build/hyp/"; done
export PYTHONPATH="$D/.build/pkg:$D/.build/hyp" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 VERIF_DIR="$D"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec "${PY:-/opt/pyenv/bin/python}" "$D/py/$B.py" "$@"

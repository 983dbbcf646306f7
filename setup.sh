#!/bin/bash
# Nothing to build; make sure the tools the checks rely on work.
cd "$(dirname "$0")" || exit 1
set -e
mkdir -p evidence
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
java -version > /dev/null 2>&1
test -r /opt/veriftools/tla/tla2tools.jar
NUMBA_CACHE_DIR=$d NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import numpy, scipy, numba"
echo ok

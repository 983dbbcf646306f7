#!/bin/bash
# Usage: check.sh C05   -- runs one check with the interpreter empymod is installed for.
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 HOME=/root PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset PYTHONPATH PYTHONDONTWRITEBYTECODE
id=$(echo "$1" | tr 'A-Z' 'a-z')
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "harness/$id.py"

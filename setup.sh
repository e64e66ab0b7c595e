#!/bin/bash
# Nothing is compiled: the checks run the pure Python tree in /repo as it is.
set -e
cd "$(dirname "$0")"
test -x /opt/pypyvenv/bin/python
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=harness /opt/pypyvenv/bin/python -c 'from vh import core, oah, daemon, model; import vhprobe'

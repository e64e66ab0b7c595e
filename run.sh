#!/bin/bash
# usage: run.sh CNN [quick|thorough] [--replay FILE]
# Runs one property's monitor against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC LANG=en_US.UTF-8 USE_PICKLES=0
unset LC_ALL LC_MESSAGES PYTHONSTARTUP
export PYTHONPATH="$here/harness${VERIF_REPO:+:$VERIF_REPO}"
export VERIF_HOME="$here"
# Never trust stale byte code of the tree under test: read it from (and write it to) nowhere
# inside /repo.
scratch="$(mktemp -d /tmp/verif-$prop.XXXXXX)"
export VERIF_SCRATCH="$scratch" HOME="$scratch/home" TMPDIR="$scratch/tmp"
export PYTHONPYCACHEPREFIX="$scratch/pyc"
mkdir -p "$scratch/home" "$scratch/tmp"
cd "$scratch"
/opt/pypyvenv/bin/python "$here/harness/checks/$(echo "$prop" | tr A-Z a-z).py" "$@"
rc=$?
cd /
case "$scratch" in /tmp/verif-*) chmod -R u+rwx "$scratch" 2>/dev/null; rm -rf "$scratch";; esac
exit $rc

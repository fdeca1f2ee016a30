#!/bin/bash
# Usage: run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--scenario NAME] ...
# Runs one check of /verif against /repo's current working tree.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh || exit 3
export PYTHONPATH=$HERE:/repo
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/vcheckrun.XXXXXX") || exit 3
cleanup() { rm -rf -- "$SCRATCH"; }
trap cleanup EXIT
export VERIF_SCRATCH=$SCRATCH VERIF_HOME=$HERE
cd "$SCRATCH" || exit 3
# The two C extensions, compiled from the working tree, outside /repo.
if ! (cd /repo && "$PY" setup.py build_ext --force --build-lib "$SCRATCH/ext" --build-temp "$SCRATCH/obj") >"$SCRATCH/build.log" 2>&1 \
   || ! ls "$SCRATCH"/ext/klang/audio/_envelope.*.so "$SCRATCH"/ext/klang/audio/_filters.*.so >/dev/null 2>&1; then
    cat "$SCRATCH/build.log" >&2
    echo "ERROR: could not build the C extensions" >&2
    exit 3
fi
timeout -k 10 "${VERIF_HARD_TIMEOUT:-860}" "$PY" -m vlib.main "$@"
rc=$?
[ $rc -eq 124 ] && { echo "INCONCLUSIVE: hard timeout" >&2; rc=4; }
exit $rc

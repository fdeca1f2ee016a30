#!/bin/bash
# Everything the checks need is committed or built by each check itself; this
# only makes sure that the toolchain is there.
. /opt/vp/env.sh || exit 1
"$PY" -c 'import numpy, scipy, samplerate' || exit 1
command -v gcc >/dev/null || exit 1
/opt/veriftools/pyvenv/bin/python3 -c 'import numpy' || exit 1
mkdir -p "$(dirname "$0")/evidence"
echo SETUP OK

#!/bin/bash
# fidelity check of the stand-ins: run the repository's own tests that need
# ngmix (metadetect/tests), with the stand-ins on the path
. /opt/vp/env.sh
export PYTHONPATH=/verif/standins
cd /repo && exec $PY -m pytest -q -p no:cacheprovider --timeout=600 "$@" metadetect/tests

#!/bin/bash
# the repository's own tests, with the stand-in for the native module (for validating fixes by hand)
cd "${VERIF_REPO:-/repo}" || exit 2
. /opt/vp/env.sh
PYTHONPATH=$PWD:/verif timeout 850 python -m pytest -q --no-header -o addopts= -p mc.shimplugin -p no:cacheprovider "$@" mixtera/tests 2>&1 | grep -v Warning

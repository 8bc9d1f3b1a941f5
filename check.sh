#!/bin/bash
# check.sh PROPERTY: decide one property for /repo's working tree.
cd "$(dirname "$0")" || exit 2
source /opt/vp/env.sh
exec python3 tools/check.py "$@"

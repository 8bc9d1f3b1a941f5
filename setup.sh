#!/bin/bash
# Builds the verifier once, so that a fresh sandbox reports a broken toolchain early; every check
# builds it again from the same committed files.
cd "$(dirname "$0")" || exit 2
source /opt/vp/env.sh
set -e
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
(cd govc && go build -mod=vendor -o "$d/govc" .)
"$d/govc" -list -repo "${REPO:-/repo}" -specs contracts >/dev/null
z3-new --version
echo setup done

#!/bin/bash
# Checks that the harness builds offline against /repo's working tree.
cd "$(dirname "$0")" || exit 1
. ./env.sh
W=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap '/bin/rm -rf "$W"' EXIT
(cd harness && go build -o "$W/mc" .)

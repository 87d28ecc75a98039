#!/bin/bash
# The command line tool, built from /repo's working tree.
cd "$VERIF_REPO" && GOFLAGS=-mod=readonly go build -o "$VERIF_TMP/scte35" .

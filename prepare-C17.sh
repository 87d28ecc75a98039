#!/bin/bash
# Builds what C17 runs: the harness with a scheduling point before every
# statement of the library (through an overlay; /repo is not touched), and the
# harness with the race detector.
set -e
here=$PWD
mkdir -p "$VERIF_TMP/ov"
(cd tools/instr && GOFLAGS= go build -o "$VERIF_TMP/instr" .)
files=$(cd "$VERIF_REPO" && GOFLAGS=-mod=readonly go list -f '{{range .GoFiles}}{{.}} {{end}}' ./pkg/scte35)
"$VERIF_TMP/instr" "$VERIF_TMP/ov" "$VERIF_REPO/pkg/scte35" scte35 $files 2>"$VERIF_TMP/points"
cd harness
go build -race -o "$VERIF_TMP/mc-race" . &
r=$!
go build -tags verifsched -overlay "$VERIF_TMP/ov/overlay.json" -o "$VERIF_TMP/mc-C17" .
wait $r

#!/bin/bash
# check.sh C03 [quick|thorough]: decides one property of /repo's working tree.
# setup: check.sh --setup
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p bin
if [ "$1" = --setup ]; then
  go build -o bin/govf ./cmd/govf && go build -o bin/replay ./cmd/replay
  exit
fi
# up to date in a moment when setup ran here
go build -o bin/govf ./cmd/govf || exit 2
exec bin/govf check -verif "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"

#!/bin/bash
# Builds .build/vh (and, for the race check, .build/vh-race) from /repo's working tree.
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh
export VERIF_DIR="$(cd .. && pwd)"
mkdir -p ../.build
go build -o ../.build/vh . || exit 2
case "$1" in
C06|C33|all) go build -race -o ../.build/vh-race . || exit 2;;
esac

#!/bin/bash
# check.sh ID [quick|thorough] [--only label:case]
# Builds the monitors against /repo's current working tree and runs one check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1; shift
tier=${VERIF_TIER:-quick}
case "$1" in quick|thorough) tier=$1; shift;; esac
./build.sh "$id" || exit 2
exec ./.build/vh check -tier "$tier" "$@" "$id"

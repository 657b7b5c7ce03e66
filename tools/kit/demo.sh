#!/bin/bash
# run in /repo; exit 0: behaves as it should
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
REPO=$PWD bash "$H/kit/build.sh" "$H/demo.cpp" "$T/demo" || exit 3
timeout 200 "$T/demo"

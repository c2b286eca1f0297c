#!/bin/bash
# run.sh <property> [--thorough]: builds the verifier if needed and decides the property on /repo.
cd "$(dirname "$0")" || exit 2
export GOVC_ROOT="$PWD"
./setup.sh >&2 || exit 2
exec ./bin/govc check "$@"

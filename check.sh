#!/bin/bash
# check.sh ID quick|thorough: decides one property on the current tree of /repo.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
stale() { [ ! -x bin/engine ] || [ -n "$(find engine -name '*.go' -newer bin/engine -print -quit)" ]; }
if stale; then ./setup.sh || exit 2; fi
exec bin/engine check -prop "$1" -tier "${2:-quick}" "${@:3}"

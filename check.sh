#!/bin/sh
# check.sh PROP [quick|thorough]
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/engine ] || [ -n "$(find engine -newer bin/engine -name '*.go' | head -1)" ]; then
	./setup.sh || exit 2
fi
VERIF_DIR=$(pwd) exec bin/engine check "$@"

#!/bin/sh
# usage: check.sh <property> [--tier quick|thorough]   decide one property
#        check.sh --replay <file>                       re-run a recorded counterexample
#        check.sh --build                               build the engine only
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod VERIF_DIR="$here"
bin=$here/bin/vsym
mkdir -p "$here/bin" || exit 3
(cd "$here/engine" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "engine build failed"; exit 3; }
case $1 in
--build) exit 0 ;;
--replay) exec "$bin" replay "$2" ;;
*) exec "$bin" check "$@" ;;
esac

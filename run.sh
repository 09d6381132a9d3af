#!/bin/bash
# run.sh PROPERTY: builds the engine when it is not there and decides one property.
# run.sh --setup: only builds.
here=$(cd "$(dirname "$0")" && pwd)
build() {
  mkdir -p "$here/bin"
  ( cd "$here/engine" && env -u GOFLAGS GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o "$here/bin/gosym.$$" . && mv "$here/bin/gosym.$$" "$here/bin/gosym" )
}
if [ "$1" = --setup ]; then
  build
  exit $?
fi
new=$(find "$here/engine" -name '*.go' -newer "$here/bin/gosym" 2>/dev/null | head -1)
if [ ! -x "$here/bin/gosym" ] || [ -n "$new" ]; then
  build || { echo "error: the engine does not build"; exit 3; }
fi
p=$1
shift
exec "$here/bin/gosym" -verif "$here" -repo /repo -prop "$p" "$@"

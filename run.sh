#!/bin/bash
# run.sh ARGS: (re)build the engine when its sources changed and run it.
V="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export VERIF_DIR="${VERIF_DIR:-$V}"
mkdir -p "$V/bin" "$V/evidence"
stamp=$(cat "$V"/gosym/*.go "$V"/gosym/go.mod | sha256sum | cut -c1-16)
if [ ! -x "$V/bin/gosym" ] || [ "$(cat "$V/bin/stamp" 2>/dev/null)" != "$stamp" ]; then
  (cd "$V/gosym" && GOWORK=off GOFLAGS="-buildvcs=false -mod=mod" CGO_ENABLED=0 go build -o "$V/bin/gosym.$$" . && mv "$V/bin/gosym.$$" "$V/bin/gosym" && echo "$stamp" >"$V/bin/stamp") || { echo "engine build failed"; exit 2; }
fi
[ $# -eq 0 ] && exit 0
cd "$V" && exec "$V/bin/gosym" "$@"

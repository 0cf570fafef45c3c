#!/bin/bash
# check.sh PROPERTY [TIER]: builds the checker (offline, vendored) and decides one property on /repo's current source.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=0
unset GOOS GOARCH GOEXPERIMENT
mkdir -p "$here/bin" "$here/evidence"
( cd "$here/checker" && GOFLAGS=-mod=vendor go build -o "$here/bin/edtfcheck" . ) || { echo "cannot build the checker" >&2; exit 2; }
[ "${1:-}" = "" ] && exit 0
unset GOFLAGS
cd "$here" && exec "$here/bin/edtfcheck" -root /repo -home "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"

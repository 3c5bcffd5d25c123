#!/bin/bash
# run.sh PROP : rebuild from /repo's working tree, then run one check.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export VERIF_TIER="${VERIF_TIER:-quick}"
if [ "${2:-}" = thorough ]; then export VERIF_TIER=thorough; fi
mkdir -p build evidence
build() {
  # tags as argument; GOFLAGS -mod=mod may want to touch go.sum: keep copies
  (cd harness && go build -tags "$1" -o "$VERIF/build/zmon" . ) 2>build/build.log
}
if ! build verif; then
  # without the hooks the tree may still build (weaker: no step budget)
  if ! build ""; then
    cat build/build.log
    echo "ERROR: the harness does not build against /repo"
    exit 2
  fi
fi
case "$1" in
  C01|C05|C08|C13|C20)
    (cd harness && go build -o "$VERIF/build/zygo" github.com/glycerine/zygomys/v9/cmd/zygo) 2>build/build.log || {
      cat build/build.log; echo "ERROR: the zygo tool does not build"; exit 2; }
    export ZYGO_BIN="$VERIF/build/zygo"
    ;;
esac
[ "$1" = setup ] && exit 0
exec "$VERIF/build/zmon" check "$1"

#!/bin/bash
# run.sh <ID> quick|thorough     run one check
# run.sh build                   build the harness against /repo's working tree
# run.sh replay <file>           re-run one stored failing case
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
for d in /opt/veriftools/go1.27.3 /usr/local/go; do
  if [ -x "$d/bin/go" ]; then PATH=$d/bin:$PATH; break; fi
done
export PATH HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly CGO_ENABLED=0
mkdir -p .build
BIN=$ROOT/.build/verif.$$
trap 'rm -f "$BIN"' EXIT
(cd harness && go build -o "$BIN" .) || { echo "ERROR: the harness does not build against /repo" >&2; exit 2; }
case "$1" in
  build) exit 0 ;;
  replay) "$BIN" replay -id "${3:-}" -file "$2"; exit $? ;;
esac
SEED=${VERIF_SEED:-1}
[ "$SEED" = 0 ] && SEED=1000003
"$BIN" check -id "$1" -tier "${2:-quick}" -seed "$SEED" -root "$ROOT"

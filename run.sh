#!/bin/bash
# run.sh CHECK TIER        run one check against /repo
# run.sh replay MODEL.json replay a counterexample on the real code
# run.sh setup             build the engine
cd "$(dirname "$0")" || exit 3
V=$PWD
for g in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$g/go" ] && { export PATH="$g:$PATH"; break; }; done
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
[ -n "$HOME" ] || export HOME=/root
BIN=$V/bin/zsym
if [ ! -x "$BIN" ] || [ -n "$(find engine -name '*.go' -newer "$BIN" -print -quit)" ]; then
  mkdir -p bin
  (cd engine && go build -o "$BIN.$$" . && mv -f "$BIN.$$" "$BIN") || { echo "engine build failed"; exit 3; }
fi
case "$1" in
  setup) exit 0 ;;
  replay) exec "$BIN" replay -verif "$V" -repo "${REPO:-/repo}" "$2" ;;
  *) exec "$BIN" check -verif "$V" -repo "${REPO:-/repo}" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" "${@:3}" ;;
esac

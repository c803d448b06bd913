#!/bin/bash
# check.sh <property> [tier]        run one check (tier: quick or thorough; default $VERIF_TIER or quick)
# check.sh --replay <file>          run the single case of a replay file again
# Rebuilds the harness together with /repo's working tree. Exit 0: held; 1: violation; 2: no verdict.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod -buildvcs=false"
unset GODEBUG GOGC GOMEMLIMIT
root=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT

build() { # variant
  local flags=()
  case $1 in
    race) flags=(-race) ;;
    checkptr) flags=(-gcflags=all=-d=checkptr=2) ;;
    asan) flags=(-asan) ;;
    gc) flags=('-gcflags=github.com/Andrew-M-C/go.jsonvalue/...=-d=maymorestack=runtime.mayMoreStackMove') ;; # moves the stack at every call of the library
  esac
  # go.mod and go.sum are copies: a build never rewrites the committed ones
  cp "$root/harness/go.mod" "$tmp/go.$1.mod" && cp "$root/harness/go.sum" "$tmp/go.$1.sum" || return 1
  (cd "$root/harness" && go build -modfile="$tmp/go.$1.mod" "${flags[@]}" -o "$tmp/vh-$1" . ) 2>"$tmp/build-$1.log" || {
    echo "BUILD FAILED ($1)"; cat "$tmp/build-$1.log"; return 1; }
}

build plain || exit 2
if [ "$1" = --build-only ]; then
  for v in race checkptr asan gc; do build $v & done
  wait
  "$tmp/vh-plain" selftest
  exit $?
fi
if [ "$1" = --replay ]; then
  v=$(sed -n 's/.*"variant": "\([a-z]*\)".*/\1/p' "$2" | head -1)
  [ "$v" = plain ] || build "$v" || exit 2
  "$tmp/vh-plain" replay -file "$2" -bins "plain=$tmp/vh-plain,$v=$tmp/vh-$v" -tmp "$tmp"
  exit $?
fi
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
vars=$("$tmp/vh-plain" variants "$prop") || exit 2
bins=
pids=()
for v in $vars; do
  bins="$bins,$v=$tmp/vh-$v"
  if [ "$v" != plain ]; then build "$v" & pids+=($!); fi
done
"$tmp/vh-plain" selftest || exit 2
for p in "${pids[@]}"; do wait "$p" || exit 2; done
"$tmp/vh-plain" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -bins "${bins#,}" -root "$root" -tmp "$tmp"

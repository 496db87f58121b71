#!/bin/bash
# run.sh ID [quick|thorough] - build the checker from /repo's working tree and run one check.
# run.sh replay FILE        - re-execute a recorded counterexample.
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=${CGO_ENABLED-0} GOWORK=off
id="$1"; shift
if [ $# -gt 0 ] && [ "$id" != replay ]; then export VERIF_TIER="$1"; shift; fi
mkdir -p "$PWD/build"
out="$(mktemp -d "$PWD/build/mc.XXXXXX")" || exit 3
trap 'rm -rf "$out"' EXIT
# Copies of the harness go.mod/go.sum keep the committed ones untouched.
cp mc/go.mod "$out/mc.mod"; cp mc/go.sum "$out/mc.sum" 2>/dev/null
build() { # build OUT MODFILE FLAGS...
  local o="$1" m="$2"; shift 2
  (cd mc && go build -ldflags=-checklinkname=0 -modfile="$m" "$@" -o "$o" ./cmd/mc) >"$out/log" 2>&1
}
# Checks that enumerate schedules run a build in which the code under test has
# scheduling points (instrumented copies of its files, put in by an overlay).
instrumented() {
  local d="$out/i"
  mkdir -p "$d" || return 1
  cp "$out/mc.mod" "$d/mc.mod"; cp "$out/mc.sum" "$d/mc.sum"
  local src
  src="$(cd mc && go list -modfile="$out/mc.mod" -m -f '{{.Dir}}' github.com/ipfs/go-ipld-format 2>/dev/null)" || return 1
  cp -r "$src" "$d/ipldformat" && chmod -R u+w "$d/ipldformat" || return 1
  sed -i 's/^go 1\.[0-9]*/go 1.18/' "$d/ipldformat/go.mod"
  echo "replace github.com/ipfs/go-ipld-format => $d/ipldformat" >>"$d/mc.mod"
  (cd mc && go run -modfile="$out/mc.mod" ./cmd/instr "$d" "$d/ipldformat" /repo/hamt+ /repo/io+ /repo/file+) >"$out/log" 2>&1 || return 1
  build "$out/mc" "$d/mc.mod" -overlay "$d/overlay.json"
}
# The same executions once more with the race detector on; the packages of the
# explorer are left out of it.
racing() {
  local d="$out/i" p=github.com/ipfs/go-unixfs/zzverif
  if (cd mc && CGO_ENABLED=1 go build -race -gcflags=$p/zz=-race=false -gcflags=$p/sched=-race=false -gcflags=$p/ex=-race=false \
      -ldflags=-checklinkname=0 -modfile="$d/mc.mod" -overlay "$d/overlay.json" -o "$out/mcr" ./cmd/mc) >"$out/log" 2>&1
  then export MC_RACE_BIN="$out/mcr"
  else echo "NOTE: no race-detector pass: $(tail -1 "$out/log")" >&2
  fi
}
want="$id"
[ "$id" = replay ] && want="$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$1" | head -1)"
case "$want" in
  C07|C13|C14|C17|C19|C23) if ! instrumented; then
      echo "NOTE: instrumented build failed, using the plain one" >&2; head -20 "$out/log" >&2
      build "$out/mc" "$out/mc.mod" || { cat "$out/log" >&2; echo "cannot build the checker" >&2; exit 3; }
    elif [ "$id" = C13 ]; then racing
    fi ;;
  *) build "$out/mc" "$out/mc.mod" || { cat "$out/log" >&2; echo "cannot build the checker" >&2; exit 3; } ;;
esac
export TMPDIR="$out"
if [ "$id" = replay ]; then "$out/mc" replay "$@"; else "$out/mc" run "$id"; fi

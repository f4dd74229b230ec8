#!/bin/bash
# usage: run.sh <property> [quick|thorough]   run one check against /repo's working tree
#        run.sh replay <file>                 re-execute a recorded violation
#        run.sh setup                         compile everything once
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LC_ALL=C.UTF-8
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GODEBUG=
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export VERIF_SEED=${VERIF_SEED:-1}
repo=${VERIF_REPO:-/repo}

work=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export VERIF_OUT=$work VERIF_EVIDENCE=${VERIF_EVIDENCE:-$here/evidence} VERIF_REPLAYS=${VERIF_REPLAYS:-$here/replays} VERIF_KNOWN=$here/known_findings.jsonl
export VERIF_HERE=$here VERIF_REPO=$repo

cp -r "$here/mc" "$work/mc"
sed -i "s#=> /repo#=> $repo#" "$work/mc/go.mod"

build() { # build [flags] -o out pkg
  (cd "$work/mc" && go test -c -vet=off "$@") || { echo "build failed"; exit 2; }
}

run() { # run <property>
  id=$1
  case "$id" in
    C13|C34) # schedule exploration: instrumented sources through an overlay, race detector on
      mkdir -p "$work/instr"
      (cd "$work/mc" && go run ./instr "$repo" "$work/instr") || { echo "instrumentation failed"; exit 2; }
      export VERIF_INSTRUMENTED=1
      (cd "$work/mc" && go test -c -vet=off -race -overlay "$work/instr/overlay.json" -o "$work/checks.test" ./checks) || {
        echo "instrumented build failed, falling back to locks and I/O as scheduling points"
        export VERIF_INSTRUMENTED=0
        build -race -o "$work/checks.test" ./checks
      } ;;
    *) build -o "$work/checks.test" ./checks ;;
  esac
  cd "$work"
  verdict
  # The code under test ended the process. Servers that share unguarded state
  # cannot be explored in parallel: repeat with a single worker.
  if crashed; then
    echo "the process was ended: $(grep -m1 -E '^(fatal error|panic|SIG)' "$work/stderr")"
    if [ "$id" != C32 ] || ! grep -q '^fatal error: concurrent map' "$work/stderr"; then
      export VERIF_WORKERS=1
      verdict
    fi
    if crashed; then
      mkdir -p "$VERIF_REPLAYS"
      python3 "$here/tools/crash.py" "$id" "${VERIF_TIER:-quick}" "$VERIF_REPLAYS/$id-crash.json" "$work/stderr"
      head -c 2000 "$work/stderr"; echo
      echo "VIOLATION property=$id replay=$VERIF_REPLAYS/$id-crash.json"
      exit 1
    fi
  fi
  echo "check $id gave no verdict (exit $rc)"; head -c 3000 "$work/stderr"; tail -30 "$work/stderr"
  exit 2
}

verdict() { # runs the check and exits with its verdict, if it reaches one
  rm -f "$work/status"
  "$work/checks.test" -test.run "^Test$id\$" -test.timeout 0 -test.count 1 2>"$work/stderr" | tee "$work/stdout"
  rc=${PIPESTATUS[0]}
  case "$(cat "$work/status" 2>/dev/null)" in
    held) exit 0 ;;
    violation) exit 1 ;;
  esac
}

crashed() { # ended by the code under test, not by the system or the harness alone
  grep -qE '^(fatal error: (concurrent map|stack overflow|all goroutines|sync)|panic: |SIG|unexpected fault)' "$work/stderr" "$work/stdout" &&
    grep -q '^github.com/256dpi/oauth2/v2\.' "$work/stderr" "$work/stdout"
}

case "${1:-}" in
  setup) build -o "$work/checks.test" ./checks; exit 0 ;;
  replay)
    id=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$2")
    VERIF_REPLAY_CASE=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["case"])' "$2")
    VERIF_TIER=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["tier"])' "$2")
    export VERIF_REPLAY_CASE VERIF_TIER
    export VERIF_EVIDENCE=$work VERIF_REPLAYS=$work
    run "$id" ;;
  C*) [ -n "${2:-}" ] && export VERIF_TIER=$2; export VERIF_TIER=${VERIF_TIER:-quick}; run "$1" ;;
  *) echo "usage: run.sh <property> [quick|thorough]"; exit 2 ;;
esac

#!/bin/bash
# check.sh <property> [vmon flags]: rebuilds the monitors against /repo's
# working tree, runs the property's workload under them and reports.
# VERIF_TIER (quick|thorough) and VERIF_SEED choose the workload.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
root=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh <property>}; shift
race=
case " C08 C09 C21 C22 C31 " in *" $id "*) race=-race;; esac
mkdir -p "$root/.build"
bin="$root/.build/vmon$race-$$"
trap 'rm -f "$bin"' EXIT
if ! (cd "$root/mon" && go build $race -o "$bin" .) >"$bin.log" 2>&1; then
  cat "$bin.log"; rm -f "$bin.log"
  echo "INCONCLUSIVE property=$id the monitors do not build against /repo"
  exit 2
fi
if [ "$id" = C09 ]; then # what a process does first is watched in processes of its own
  export VMON_FIRST="$bin-first"
  trap 'rm -f "$bin" "$bin-first"' EXIT
  if ! (cd "$root/mon" && go build -race -o "$VMON_FIRST" ./first) >"$bin.log" 2>&1; then
    cat "$bin.log"; rm -f "$bin.log"
    echo "INCONCLUSIVE property=$id the monitors do not build against /repo"
    exit 2
  fi
fi
rm -f "$bin.log"
"$bin" -root "$root" -prop "$id" "$@"

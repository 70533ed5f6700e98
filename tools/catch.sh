#!/bin/bash
# catch.sh ID...: applies a planted bug to a scratch copy of /repo and runs its property's check on it.
[ $# = 0 ] && set -- $(ls /verif/seeded)
for id in "$@"; do
  S=/verif/seeded/$id; W=$(mktemp -d /tmp/catch.XXXXXX); mkdir $W/verif
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cp -a /repo $W/repo
  for x in bin contracts harness tools known-findings.txt properties.jsonl; do ln -s /verif/$x $W/verif/$x; done
  git -C $W/repo apply $S/patch.diff || continue
  t=$(date +%s)
  out=$(cd $W/verif && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$W/repo VERIF_DIR=$W/verif timeout 900 /verif/bin/govc check $p 2>&1); rc=$?
  echo "$id rc=$rc $(($(date +%s)-t))s $(echo "$out" | grep VIOLATION | sed 's/replay=[^ ]*//')"
  [ -n "$V" ] && echo "$out" | cut -c1-250
  rm -rf "$W"
done

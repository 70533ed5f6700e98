#!/bin/bash
# confirm.sh ID...: confirms planted bugs in a scratch copy of /repo: the demo passes
# without the change, the change builds and keeps the tests, the demo fails with it.
for id in "$@"; do
  S=/verif/seeded/$id; W=$(mktemp -d /tmp/confirm.XXXXXX); R=$W/repo; mkdir -p $W/demo
  cp -a /repo $R; cp $S/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  ok=1
  (cd $R && bash $W/demo/demo.sh >$W/o1 2>&1) || { echo "$id: demo FAILS on the unchanged tree"; tail -20 $W/o1; ok=0; }
  (cd $R && git apply $S/patch.diff) || { echo "$id: patch does not apply"; ok=0; }
  export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
  (cd $R && go build ./... >$W/o2 2>&1 && go test -count=1 ./... >$W/o3 2>&1) || { echo "$id: build or tests fail"; cat $W/o2; grep -E "^(---|FAIL|panic)" $W/o3 | head; ok=0; }
  (cd $R && bash $W/demo/demo.sh >$W/o4 2>&1) && { echo "$id: demo PASSES with the change"; ok=0; }
  [ $ok = 1 ] && echo "$id: confirmed"
  rm -rf "$W"
done

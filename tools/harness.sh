#!/bin/bash
# harness.sh PROP [go test flags]: runs one property's harness on /repo.
cd /verif/harness; P=$1; shift
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
while read -r f d extra; do
  case "$f" in \#*|"") continue;; esac
  grep -q "func TestVerif$P\b\|func TestVerif${P}_" "$f" || continue
  fl=""; fs=""
  for e in $extra; do case $e in -*) fl="$fl $e";; *) fs="$fs $e";; esac; done
  T=$(mktemp -d)
  python3 - "$f" "$d" $fs > "$T/o.json" <<'P'
import sys, json, glob
f, d, extra = sys.argv[1], sys.argv[2], sys.argv[3:]
rep = {}
for x in [f] + extra:
    b = x[:-3]
    rep[f"/repo/{d}/zz_{b}{'_verif_test' if not b.endswith('_test') else '_verif_test'}.go"] = f"/verif/harness/{x}"
for o in glob.glob(f"/repo/{d}/*_test.go"): rep[o] = ""
print(json.dumps({"Replace": rep}))
P
  (cd /repo && go test -c -o "$T/h.test" -vet=off -overlay "$T/o.json" $fl "./$d") && (cd "$T" && ./h.test -test.run "^TestVerif$P(\$|_)" "$@")
  rm -rf "$T"
done < index.txt

#!/bin/bash
# Conformance of the instrumentation: a function that uses the language and the replaced packages as widely
# as possible (constructs.go.txt) has to produce the same output on the original runtime and under the
# controlled scheduler in every schedule.
set -e
. /opt/vp/env.sh 2>/dev/null || true
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd); verif=$(dirname "$here")
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir "$w/repo" "$w/verif" "$w/out"
cp -a /repo/. "$w/repo/"; cp -a "$verif/lib" "$verif/harness" "$verif/tools" "$w/verif/"
cp "$here/constructs.go.txt" "$w/repo/kiwi/selftest.go"
cp "$here/harness.go.txt" "$w/verif/harness/kiwi/main/selftest.go"
cat > "$w/repo/kiwi/selftest_test.go" <<'T'
package kiwi

import ("os"; "testing")

func TestSelftest(t *testing.T) { os.WriteFile(os.Getenv("SELFTEST_OUT"), []byte(Selftest()), 0o644) }
T
(cd "$w/repo" && SELFTEST_OUT="$w/want" go test -count=1 -run TestSelftest ./kiwi >/dev/null)
/usr/bin/env rm -f "$w/repo/kiwi/selftest_test.go"
(cd "$w/verif/tools/mc" && go build -o "$w/mc" .)
MC_VERIF="$w/verif" MC_REPO="$w/repo" "$w/mc" build "$w/out" kiwi
"$w/out/kiwi/harness.bin" -prop C99 -job selftest -out "$w/got.json"
"$w/out/kiwi/harness.bin" -prop C99 -job unstable -out "$w/got2.json" || true
python3 - "$w" <<'P'
import json,sys
w=sys.argv[1]
d=json.load(open(w+"/got.json")); want=open(w+"/want").read()
got=d.get("outcomes",{})
assert set(got)=={want}, "different output under the scheduler:\n%s\nwant:\n%s"%("\n---\n".join(got),want)
assert not d.get("violations"), d["violations"]
assert len(json.load(open(w+"/got2.json")).get("violations") or [])==1, "failure with an unstable text got lost"
print("selftest ok:",d["executions"],"schedules,",d["transitions"],"transitions, one output")
P

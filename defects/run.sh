#!/bin/bash
# run.sh [REPO] [-run REGEXP ...]: runs each demonstration in a process of its own
repo=${1:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/o.json" <<J
{"Replace": {"$repo/root_verif_test.go": "$here/root_verif_test.go", "$repo/channel/channel_verif_test.go": "$here/channel_verif_test.go",
 "$repo/ws/server/ws_verif_test.go": "$here/ws_verif_test.go", "$repo/codegen/codegen_verif_test.go": "$here/codegen_verif_test.go"}}
J
cd "$repo" || exit 1
rc=0
for p in . ./channel ./ws/server ./codegen; do
    go test -overlay "$tmp/o.json" -vet=off -c -o "$tmp/t" $p || { rc=1; continue; }
    for t in $("$tmp/t" -test.list Defect); do
        if (cd $p && timeout 60 "$tmp/t" -test.run "^$t\$" > "$tmp/log" 2>&1); then echo "ok   $t"; else rc=1; echo "FAIL $t: $(grep -m1 -E 'hangs|_test.go:[0-9]+: |panic:' "$tmp/log")"; fi
    done
done
go test -overlay "$tmp/o.json" -vet=off -race -c -o "$tmp/t" . && for t in $("$tmp/t" -test.list TestRace); do
    if timeout 60 "$tmp/t" -test.run "^$t\$" > "$tmp/log" 2>&1; then echo "ok   $t (race detector)"; else rc=1; echo "FAIL $t: $(grep -m1 -E 'DATA RACE|_test.go:[0-9]+: |panic:' "$tmp/log")"; fi
done
exit $rc

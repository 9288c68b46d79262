#!/bin/bash
# try_seed.sh ID: applies seeded/ID in a scratch copy of /repo, checks that it builds and passes the tests, that its
# demonstration fails with and passes without it, and that the check of its property reports it.
id=$1; here=/verif/seeded/$id
wt=$(mktemp -d /tmp/seed_XXXXXX)
trap 'rm -rf "$wt"' EXIT
cp -a /repo/. "$wt/"
cd "$wt" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
prop=$(python3 -c "import json;print(json.load(open('$here/meta.json'))['property'])")
bash "$here/demo.sh" >"$wt.clean" 2>&1; clean=$?
git apply "$here/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
cp go.mod "$wt.mod"; cp go.sum "$wt.sum"
printf '\nreplace github.com/amarin/logging => /verif/stubs/logging\n\nreplace github.com/amarin/libxml => /verif/stubs/libxml\n' >> "$wt.mod"
go build -modfile="$wt.mod" ./... >"$wt.build" 2>&1; build=$?
go test -vet=off -modfile="$wt.mod" ./internal/... ./pkg/storage ./pkg/dag ./pkg/common >"$wt.test" 2>&1; tests=$?
bash "$here/demo.sh" >"$wt.demo" 2>&1; demo=$?
start=$(date +%s)
VERIF_REPO=$wt python3 /verif/run.py "$prop" >"$wt.check" 2>&1; check=$?
echo "$id $prop: demo clean=$clean build=$build tests=$tests demo=$demo check=$check ($(( $(date +%s) - start )) s) $(grep -ah '^family' "$wt.check" | cut -c1-150)"
[ $clean = 0 ] || tail -5 "$wt.clean"
[ $build = 0 ] || tail -5 "$wt.build"
[ $tests = 0 ] || grep -v '^ok\|no test files' "$wt.test" | head -20
[ $demo != 0 ] || tail -5 "$wt.demo"
rm -f "$wt.clean" "$wt.mod" "$wt.sum" "$wt.build" "$wt.test" "$wt.demo" "$wt.check"

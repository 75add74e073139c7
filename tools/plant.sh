#!/bin/bash
# Development tool for the planted bugs of /verif/seeded; no check uses it.
#   plant.sh mk ID        turn the edits made in the scratch copy into seeded/ID/patch.diff and undo them
#   plant.sh try ID       demo on the clean copy, then patch, build, tests, demo, and the check of its property
#   plant.sh check ID [PROP...]   only the checks
scratch=${SCRATCH:-/tmp/pb/repo}
[ -d "$scratch" ] || { mkdir -p "$(dirname "$scratch")"; cp -a /repo "$scratch"; }
cmd=$1; id=$2; shift 2
dir=/verif/seeded/$id
cd "$scratch" || exit 1
clean() { git -C "$scratch" checkout -q -- . && git -C "$scratch" clean -fdq; }
tests() { go build ./... && go test -vet=off -count=1 -cpu 1 . >/tmp/pb/t1.log 2>&1 && go test -vet=off -count=1 $(go list ./... | grep -v 'ferry$') >/tmp/pb/t2.log 2>&1; }
case $cmd in
mk)
	mkdir -p "$dir"; git diff > "$dir/patch.diff"; clean; git apply --check "$dir/patch.diff" && wc -l "$dir/patch.diff";;
try)
	clean
	bash "$dir/demo.sh" > /tmp/pb/$id.demo0 2>&1 || { echo "$id: demo FAILS unpatched"; tail -5 /tmp/pb/$id.demo0; exit 1; }
	git apply "$dir/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
	for i in 1 2 3; do tests || { echo "$id: build/tests fail with patch"; tail -n 20 -q /tmp/pb/t1.log /tmp/pb/t2.log; clean; exit 1; }; done
	bash "$dir/demo.sh" > /tmp/pb/$id.demo1 2>&1 && { echo "$id: demo PASSES with patch"; clean; exit 1; }
	prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
	out=$(FERRY_REPO=$scratch /verif/run.sh "$prop" quick 2>&1); rc=$?
	if [ $rc = 1 ] && grep -q "VIOLATION property=$prop" <<<"$out"; then echo "$id: caught by $prop: $(grep -m1 -A3 "VIOLATION" <<<"$out" | tr '\n' ' ' | cut -c1-300)"; else echo "$id: MISSED by $prop rc=$rc"; fi
	clean;;
check)
	clean; git apply "$dir/patch.diff" || exit 1
	props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
	for p in $props; do FERRY_REPO=$scratch /verif/run.sh "$p" quick 2>&1 | tail -8; done
	clean;;
esac

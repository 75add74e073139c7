#!/bin/bash
# run.sh [FAMILY...]: checks the engine itself: every small program's outcomes as the engine explores them
# against the reference, and what the Go runtime does against both; the virtual network against the
# kernel's.  Not one of the checks: it tells whether they can be believed.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GO111MODULE=on
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
(cd "$here/../rewrite" && go build -o "$w/rewrite" .)
"$w/rewrite" -src "$here/mod" -dst "$w/src" -vs "$here/../vs"
cp -r "$here/ref" "$w/src/ref"; mkdir "$w/src/h"; cp "$here/h/main.go" "$w/src/h/"
(cd "$w/src" && go build -o "$w/self" ./h)
cp -r "$here/mod" "$w/nat"; mkdir "$w/nat/h"; cp "$here/native/main.go" "$w/nat/h/"
(cd "$w/nat" && go build -o "$w/native" ./h)
# the virtual network against the kernel's; where they differ the kernel is asked again, alone
net() {
	echo "== net"
	mkdir "$w/src/hnet" "$w/nat/hnet"
	cp "$here/hnet/main.go" "$w/src/hnet/"; (cd "$w/src" && go build -o "$w/vn" ./hnet)
	cp "$here/nativenet/main.go" "$w/nat/hnet/"; (cd "$w/nat" && go build -o "$w/nn" ./hnet)
	python3 "$here/gennet.py" | sort -u >"$w/p"
	"$w/vn" <"$w/p" | sort >"$w/v.out"
	"$w/nn" <"$w/p" | sort >"$w/n.out"
	comm -13 "$w/v.out" "$w/n.out" | cut -f1 | while read -r p; do echo "$p" | "$w/nn"; done >"$w/again"
	echo "$(wc -l <"$w/p") sequences, $(comm -13 "$w/v.out" "$w/n.out" | wc -l) tried again, different: $(sort "$w/again" | comm -13 "$w/v.out" - | wc -l)"
	sort "$w/again" | comm -13 "$w/v.out" - | head
}
for f in ${*:-sync rw cond wg time chan race race2 race3 net}; do
	[ $f = net ] && { net; continue; }
	echo "== $f"
	python3 "$here/gen.py" $f >"$w/progs"
	split -n r/8 "$w/progs" "$w/part."
	rc=0; pids=
	for p in "$w"/part.??; do "$w/self" -bound ${BOUND:-6} -list "$p.list" <"$p" >"$p.out" & pids="$pids $!"; done
	for p in $pids; do wait $p || rc=1; done
	grep -h -v programs "$w"/part.*.out | head -${SHOW:-20} || true
	cat "$w"/part.*.out | grep programs | awk '{p+=$1;e+=$3;s+=$5;o+=$10;a+=$(NF-4+0)} END {print p" programs, "e" executions, "s" reference states, "o" outcomes"}'
	cat "$w"/part.*.list >"$w/list"
	[ $rc = 0 ] && echo "engine = reference" || echo "DIFFERENT"
	"$w/native" -runs ${RUNS:-3} <"$w/list" || true
	rm -f "$w"/part.*
done

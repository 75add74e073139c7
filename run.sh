#!/bin/bash
# run.sh ID TIER [extra flags]: decide one property on /repo's current working tree.
#
# Everything is built from scratch in a private directory that is removed afterwards.
set -u
id=$1; tier=$2; shift 2
here=$(cd "$(dirname "$0")" && pwd)
repo=${FERRY_REPO:-/repo}
lower=$(echo "$id" | tr 'A-Z' 'a-z')
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GOSUMDB=off GO111MODULE=on
unset GOWORK
export HOME=${HOME:-/root}
work=$(mktemp -d "${TMPDIR:-/tmp}/ferrymc.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$here/evidence" "$here/replays"

# no_verdict: nothing could be explored (the tree does not build with the machinery): neither
# pass nor alarm.
no_verdict() {
	echo "no verdict: $1"
	cat >"$here/evidence/$id.json" <<-EOF
	{"property": "$id", "tier": "$tier", "seed": ${VERIF_SEED:-1}, "level": "model_checking",
	 "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["none"],
	  "exhaustive": false, "explanation": "no verdict: $1"},
	 "wall_s": 0, "violations": 0}
	EOF
	exit 2
}

common=(-tier "$tier" -evidence "$here/evidence/$id.json" -replays "$here/replays" -known "$here/known_findings.txt")

if [ -d "$here/mc/p/$lower" ]; then
	# Plain: the harness is compiled against the tree as it is.
	dir=$work/p
	mkdir -p "$dir"
	cp -r "$here/mc/p/." "$dir/"
	mkdir -p "$dir/zzvs"
	sed "s#REPO#$repo#" "$here/mc/p/go.mod.in" >"$dir/go.mod"
	cd "$dir" || exit 2
	go build -o "$work/check" "./$lower" >"$work/log" 2>&1 || { tail -20 "$work/log"; no_verdict "the harness does not build against this tree"; }
	export FERRY_REPO=$repo FERRY_WORK=$work
	"$work/check" "${common[@]}" "$@"
	exit $?
fi

(cd "$here/mc/rewrite" && go build -o "$work/rewrite" .) >"$work/log" 2>&1 || { cat "$work/log"; echo "cannot build the rewriter"; exit 2; }
# 1. everything instrumented, with accessors to unexported names; 2. without these; 3. only
# synchronization instrumented.
for mode in "-tags=zzinject" "" "-sync"; do
	rm -rf "$work/mcsrc"
	rw=; tags=
	case $mode in -sync) rw=-sync ;; -tags*) tags=$mode ;; esac
	if "$work/rewrite" $rw -src "$repo" -dst "$work/mcsrc" -vs "$here/mc/vs" >"$work/log" 2>&1; then
		cp -r "$here/mc/h" "$work/mcsrc/zzharness"
		[ -n "$tags" ] && cp -r "$here/mc/inject/." "$work/mcsrc/"
		if (cd "$work/mcsrc" && go build $tags -o "$work/check" "./zzharness/$lower") >"$work/log" 2>&1; then
			cd "$work"
			"$work/check" "${common[@]}" "$@"
			exit $?
		fi
	fi
	echo "building the check${mode:+ ($mode)} failed:"; tail -15 "$work/log"
done
no_verdict "the tree could not be instrumented"

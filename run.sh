#!/bin/bash
# run.sh ID [--thorough] [--replay FILE | engine flags]: builds the harness with the library
# from the current working tree of /repo and runs the check of one property.
#
# Exit 0: held; 1: violated (with a VIOLATION line); 2: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=${1:?usage: run.sh ID}
shift
export BIBCHECK_REPO=$repo # for the generators' dictionary
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
work=$(mktemp -d "${TMPDIR:-/tmp}/bibcheck.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here/harness/go.sum" "$work/go.sum" || exit 2
sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" >"$work/go.mod" || exit 2
build() {
	if ! (cd "$here/harness" && go build -modfile="$work/go.mod" "$@" .) >"$work/build.log" 2>&1; then
		cat "$work/build.log" >&2
		echo "build failed" >&2
		exit 2
	fi
}
build -o "$work/bibcheck"
if [ "$id" = C23 ]; then
	# Histories with several goroutines run under the race detector.
	build -race -o "$work/bibrace"
	export BIBCHECK_RACE=$work/bibrace
fi
if [ "${1:-}" = --thorough ]; then
	export VERIF_TIER=thorough
	shift
fi
mkdir -p "$work/scratch"
fuzzed=0
# fuzz runs the coverage-guided fuzzer of the go command with the check as its
# oracle. It can't be pinned to a seed; what it finds is a replay file.
fuzz() {
	local target=FuzzChoices
	case $id in
	C23) return ;; # each case starts processes
	C01 | C02 | C08 | C09 | C11 | C19 | C26 | C30 | C35) target=FuzzSource ;;
	esac
	if ! (cd "$here/harness" && go test -modfile="$work/go.mod" -c -vet=off -fuzz="$target" -o "$work/fuzz.test" .) >"$work/build.log" 2>&1; then
		cat "$work/build.log" >&2
		exit 2
	fi
	mkdir -p "$work/fuzz" "$work/corpus"
	(cd "$work/fuzz" && BIBCHECK_FUZZ=$id BIBCHECK_FUZZ_OUT=$work/case.json timeout 800 "$work/fuzz.test" -test.run '^$' \
		-test.fuzz "^$target\$" -test.fuzztime "${BIBCHECK_FUZZTIME:-120s}" -test.fuzzcachedir "$work/corpus" -test.parallel 8) >"$work/fuzz.log" 2>&1
	local rc=$?
	fuzzed=$(sed -n 's/.*execs: \([0-9]*\).*/\1/p' "$work/fuzz.log" | tail -1)
	fuzzed=${fuzzed:-0}
	if [ -s "$work/case.json" ]; then
		local f=$here/replays/$id-fuzz-$(cksum <"$work/case.json" | cut -d' ' -f1).json
		mkdir -p "$here/replays"
		cp "$work/case.json" "$f"
		"$work/bibcheck" -replay "$f" -scratch "$work/scratch" "$id"
		local r=$?
		if [ $r = 1 ]; then exit 1; fi
		echo "the case that the fuzzer found does not fail again: $f" >&2
		exit 2
	elif [ $rc != 0 ]; then
		tail -20 "$work/fuzz.log" >&2
		exit 2
	fi
}
if [ "${VERIF_TIER:-}" = thorough ] && [ "${1:-}" != --replay ]; then
	fuzz
fi
args=(-fuzzed "$fuzzed" -evidence "$here/evidence/$id.json" -replays "$here/replays" -known "$here/known-findings.txt" -scratch "$work/scratch")
if [ "${1:-}" = --replay ]; then
	args=(-replay "${2:?}" -scratch "$work/scratch")
	shift 2
fi
"$work/bibcheck" "${args[@]}" "$@" "$id"

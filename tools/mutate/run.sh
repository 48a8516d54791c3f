#!/bin/bash
# run.sh ast|rare WORKERS [FILE-PREFIX...]
# Mutation testing of the checks: makes mutants of the files of /repo and
# starts workers, each with copies of /repo and /verif of its own that only it
# sees at those places. Results: /tmp/mutants/KIND*.jsonl, one line per mutant
# (tests: killed by the existing tests; caught: by which check; SURVIVED).
#   ast   operators, constants, conditions, statements, strings, slices
#   rare  the same only for rare values of a variable; variables exchanged
set -e
kind=$1 w=$2; shift 2
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/../../env.sh"
m=/tmp/mutants; mkdir -p $m/src-$kind
cp "$here/$kind.go.txt" $m/src-$kind/main.go
(cd $m/src-$kind && printf 'module m\n\ngo 1.21\n' >go.mod && go build -o ../mutate-$kind .)
cd /repo
if [ $kind = rare ]; then in=". internal/match old licenses/getspdx.go licenses/getcc.go gen_data.go"
else in="scan.go license.go internal/match/dict.go internal/match/regexp.go internal/match/rematch.go internal/match/resyntax.go old/license.go old/normalize.go licenses/getspdx.go licenses/getcc.go gen_data.go"; fi
GOFLAGS=-mod=mod $m/mutate-$kind $in >$m/$kind.json
for ((n=0; n<w; n++)); do
	d=$m/w-$kind$n
	mkdir -p $d/verif/evidence
	cp -a /repo $d/repo
	(cd /verif && cp -a build.sh check.sh env.sh harness known_findings.txt tools properties.jsonl $d/verif/)
	cp "$here/worker.py" $d/
	nice -n 15 unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && exec python3 $d/worker.py $m/$kind.json $m/$kind $n $w $*" >$d/log 2>&1 &
done
wait

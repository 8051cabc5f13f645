#!/bin/bash
# refac.sh [MODE...]: apply each behaviour-preserving transformation to a copy of /repo; the checks must stay quiet.
. /opt/vp/env.sh; export GOFLAGS=-mod=mod
cd "$(dirname "$0")/refac" && go build -o /tmp/refac . || exit 1
CHK=${CHK:-/tmp/chk}
[ $# = 0 ] && set -- noop invert cond switch nestand elseearly index forbreak rettemp fields makelit appendcopy cmp negcmp demorgan lenzero defer iife outline rename
for m in "$@"; do
 d=/tmp/rfc/$m; rm -rf "/tmp/rfc/$m"; mkdir -p /tmp/rfc; cp -a /repo "$d"
 (cd "$d" && /tmp/refac -mode "$m" "$d") || continue
 (cd "$d" && go build ./... ) > "/tmp/rfc/$m.build" 2>&1 || { echo "$m: DOES NOT BUILD"; head -5 "/tmp/rfc/$m.build"; continue; }
 if [ -n "$TESTS" ]; then (cd "$d" && go test . ./lock/db ./eventbus/mem ./logger/... ./testsuit/... 2>&1 | grep -v '^ok\|no test files' | tail -5); fi
 $CHK -q -repo "$d" > "/tmp/rfc/$m.out" 2>&1
 echo "$m: $(grep -c VIOL /tmp/rfc/$m.out) violations, $(grep -cE 'TAINT|!!|more than|UNDEC' /tmp/rfc/$m.out) undecided"
 grep VIOL "/tmp/rfc/$m.out" | awk '{print $2}' | sort | uniq -c | sort -rn | head -${N:-5}
 rm -rf "/tmp/rfc/$m"
done

#!/bin/bash
# Builds and runs the self test of the runtime (sc/selftest.cpp): the good scenarios must pass, the bad_* be reported.
V=$(cd "$(dirname "$0")/.." && pwd); B=${VERIF_BUILD:-$V/build}; mkdir -p "$B"
g++ -mmemcpy-strategy=rep_byte:-1:noalign -mmemset-strategy=rep_byte:-1:noalign -std=c++20 -O2 -g -fno-builtin -U_FORTIFY_SOURCE -c "$V/rt/vrt.cpp" -o "$B/selftest-rt.o" &&
g++ -std=c++20 -O1 -foptimize-sibling-calls -g -U_FORTIFY_SOURCE -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -w -c "$V/sc/selftest.cpp" -o "$B/selftest.o" &&
g++ -no-pie -rdynamic "$B/selftest.o" "$B/selftest-rt.o" -ldl -pthread -o "$B/selftest" || exit 3
r=0
for s in $("$B/selftest" --list); do
	"$B/selftest" --scenario $s --base 1 --start 0 --count 3000 --wall 100 --out "$B/selftest.json" >/dev/null 2>&1; rc=$?
	case $s in bad_*) [ $rc = 10 ] ;; *) [ $rc = 0 ] ;; esac || { echo "selftest: $s gives $rc"; r=1; }
done
[ $r = 0 ] && echo "selftest ok"; exit $r

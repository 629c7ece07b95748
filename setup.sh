#!/bin/bash
# Nothing to build: the checks import /repo/privcount from source on every run.
# Shows that the interpreter and the stand-ins load.
cd "$(dirname "$0")" || exit 1
t=$(mktemp -d) || exit 1
echo 'import simenv, privcount.counter, privcount.crypto; print "ready"' > "$t/t.py"
out=$(timeout 600 bash lib/jython.sh "$t/t.py")
rm -f "$t/t.py"; rmdir "$t"
echo "$out"
[ "$out" = ready ]

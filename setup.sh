#!/bin/sh
# nothing to build ahead of time: checks that the tools the verifier needs are there
set -e
cd "$(dirname "$0")"
for t in clang++ z3 cvc5 python3-vt nm; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -x /usr/bin/opt || command -v opt >/dev/null || test -x /usr/lib/llvm-18/bin/opt
python3-vt -c 'import z3'
mkdir -p out build evidence
echo ok

#!/bin/bash
# Makes sure that everything the checks need is there: the tools, the sources and a specification that parses.
set -e
cd "$(dirname "$0")/.."
test -f /repo/include/fakeit.hpp || test -d /repo/include/fakeit
command -v java g++ clang++ python3 > /dev/null
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd spec
for m in Gen Trace Props; do
    java -Djava.io.tmpdir="$work" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY $m.tla > "$work/$m.log" 2>&1 || { cat "$work/$m.log"; exit 1; }
    if grep -q -i "error" "$work/$m.log"; then cat "$work/$m.log"; exit 1; fi
done
cd ..
python3 -B tools/check.py --list > /dev/null
mkdir -p evidence out
echo "setup done"

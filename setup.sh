#!/bin/bash
# Parses every specification once; nothing has to be built.
cd "$(dirname "$0")/specs" || exit 1
mkdir -p ../evidence ../out
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
java -cp $J tla2sany.SANY *.tla > ../out/sany.log 2>&1 || { tail -20 ../out/sany.log; exit 1; }
grep -q "^\*\*\* Errors\|Fatal errors" ../out/sany.log && { grep -A5 "Errors" ../out/sany.log; exit 1; }
[ -x /opt/pypyvenv/bin/python ] || exit 1
echo "setup done"

#!/bin/bash
# nothing to build ahead of time: every check builds what it needs from /repo; this only checks the tools and the specifications
cd "$(dirname "$0")/spec" || exit 1
command -v clang++ >/dev/null && command -v java >/dev/null && command -v python3-vt >/dev/null && command -v mpirun >/dev/null || exit 1
for f in *.tla; do out=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" 2>&1) || { echo "$out"; exit 1; }; done
echo setup ok

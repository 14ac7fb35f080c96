#!/bin/sh
# Nothing has to be compiled: check that the tools and all specifications are usable offline.
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c "import lxml.etree, json"
java -version 2>/dev/null
mkdir -p evidence out
T=$(mktemp -d)
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$T/log" 2>&1 || { cat "$T/log"; rm -r "$T"; exit 1; }
done
rm -r "$T"
echo "specifications parsed"

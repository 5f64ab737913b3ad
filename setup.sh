#!/bin/bash
# Verifies that the tools the checks use are present and that every specification parses.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cp specs/*.tla "$D"/
cd "$D"
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$f.log" 2>&1 \
    || { cat "$f.log"; exit 1; }
done
echo "setup ok: $(ls *.tla | wc -l) specifications parse"

#!/bin/bash
# Parse every specification once; nothing has to be built.
set -e
cd "$(dirname "$0")/spec"
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for f in *.tla; do
  java -cp $CP tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 && ! grep -q '\*\*\* Errors\|Parse Error\|Fatal error' /tmp/sany.$$ || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo "specifications parsed"

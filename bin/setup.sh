#!/bin/bash
# Builds the driver once (warms the Go build cache) and parses every specification.
set -e
cd "$(dirname "$0")/.."
T=$(mktemp -d)
bash bin/build.sh "$T/driver"
rm -f "$T/driver"; rmdir "$T"
CP=/opt/veriftools/tla/tla2tools.jar:$(ls /opt/veriftools/tla/*.jar | grep -v tla2tools | tr '\n' ':')
cd spec
for f in *.tla; do
  java -cp "$CP" tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok

#!/bin/bash
# Nothing to build ahead of the checks: each builds la from /repo in a scratch
# directory.  This only makes sure that the tools are there and the spec parses.
cd "$(dirname "$0")" || exit 1
test -x /opt/py27/usr/bin/python2.7 || { echo "python2.7 is missing"; exit 1; }
mkdir -p evidence replays
cd spec || exit 1
for m in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
    rm -f /tmp/sany.$$
done
echo "setup: ok"

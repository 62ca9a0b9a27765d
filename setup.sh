#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the drivers by Python.
# Verifies that the tools and the specification modules are usable.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import pygerber, shapely, PIL"
for m in spec/*.tla; do
  (cd spec && java -cp "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tla2sany.SANY "$(basename "$m")") > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
mkdir -p evidence replays
echo setup ok

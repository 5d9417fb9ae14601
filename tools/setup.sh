#!/bin/bash
# Checks that everything the checks need builds: the driver, and the specification.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build"
bash "$V/tools/build.sh" "$V/build"
for m in "$V"/spec/*.tla; do
  (cd "$V/spec" && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$V/build/sany.txt" 2>&1) || { cat "$V/build/sany.txt"; exit 1; }
done
echo ok

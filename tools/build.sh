#!/bin/bash
# Builds the driver against /repo's working tree: build.sh OUTDIR
set -e
DRVTAGS=${DRVTAGS--tags no_license}
OUT=$1
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
mkdir -p "$OUT"
python3 - "$V" "$OUT" <<'PY'
import sys, os, json
v, out = sys.argv[1:]
d = v + "/harness/drv"
rep = {"/repo/zz_verif_drv/" + f: d + "/" + f for f in sorted(os.listdir(d)) if f.endswith(".go")}
json.dump({"Replace": rep}, open(out + "/overlay.json", "w"))
PY
gcc -O1 -o "$OUT/fscrash" "$V/harness/tracer/fscrash.c"
cd /repo
go build $DRVTAGS -overlay "$OUT/overlay.json" -o "$OUT/drv" ./zz_verif_drv
if [ -n "$DRVCLI" ]; then
	go build $DRVTAGS -o "$OUT/ripsrc" .
fi

#!/bin/bash
# For each repaired defect (known-findings.json): takes the repair back in a scratch clone and runs the check of its property.
V=$(cd "$(dirname "$0")/.." && pwd)
d=$(mktemp -d /tmp/refix.XXXXXX)
trap 'rm -rf "$d"' EXIT
git clone -q /repo "$d/r"
python3 - "$V/known-findings.json" <<'P' > "$d/list"
import json, re, sys
for k in json.load(open(sys.argv[1]))["findings"]:
    if k.get("status") == "fixed": print(k["property"], k["commit"])
P
while read -r p c; do
    git -C "$d/r" checkout -q -f --detach origin/HEAD
    if ! git -C "$d/r" -c user.name=x -c user.email=x@x revert --no-edit "$c" >/dev/null 2>&1; then
        git -C "$d/r" revert --abort 2>/dev/null; git -C "$d/r" reset -q --hard
        echo "$p $c: later repairs touch the same lines, not revertible alone"; continue
    fi
    SIM_REPO="$d/r" SIM_BUILD="$d/b" SIM_OUT="$d" VERIF_SEED=1 VERIF_TIER=quick SIM_SECONDS="${SECS:-45}" python3 "$V/run.py" check "$p" > "$d/out" 2>&1 < /dev/null
    echo "$p $c: rc=$? $(grep -m1 'class=' "$d/out" | cut -c1-160)"
done < "$d/list"

#!/bin/bash
# tools/mkseed.sh <id> <property> "<needs>" "<what it breaks>" : takes the edit made in the clone /tmp/ed/r as the planted bug; demo files are put by hand
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; mkdir -p $S
git -C /tmp/ed/r diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "empty patch"; exit 1; }
python3 - "$1" "$2" "$3" "$4" "$S" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[5]+"/meta.json","w"),indent=1)
P
git -C /tmp/ed/r checkout -q -- .

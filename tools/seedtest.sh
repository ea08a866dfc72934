#!/bin/bash
# tools/seedtest.sh <id> [nt] : confirms a planted bug in a scratch copy of /repo (bind-mounted over /repo in a private mount
# namespace) and runs the check of its property against it.  "nt": skip the stable tests.
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; S=$V/seeded/$id; [ -d "$S" ] || S=$V/seeded-more/$id; W=/tmp/sd_$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"
mkdir -p "$W/b"; [ -d /verif/.build/std ] && cp -a /verif/.build/std "$W/b/"; [ "$3" = asan ] && cp -a /verif/.build/asan "$W/b/"
( cd /repo && bash "$S/demo.sh" >"$W/demo0.log" 2>&1 ); echo "$id demo on the unchanged tree: $?"
git -C "$W/repo" apply "$S/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
unshare -m bash -c "
mount --bind $W/repo /repo
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo '$id: BUILD FAILS'; tail -20 $W/build.log; exit 1; }
(cd /repo && bash $S/demo.sh >$W/demo1.log 2>&1); echo \"$id demo on the changed tree: \$?\"; tail -3 $W/demo1.log
[ '$2' = nt ] || { bash /opt/vp/test.sh $W/out.json 2>&1 | tail -1 | sed 's/^/$id tests: /'; }
cd $V; VT_BUILD=$W/b VT_OUT=$W timeout 900 python3 -m vt.run $prop >$W/check.log 2>&1; echo \"$id check $prop rc=\$?\"; grep -a VIOLATION $W/check.log; grep -a FAILED $W/check.log | cut -c1-200
"
rm -rf "$W/repo" "$W/b"

#!/bin/bash
# seedtest.sh ID [nocheck]: validate a planted bug in a scratch copy of /repo
id=$1; S=/verif/seeded/$id; W=/tmp/seedwork_$id
rm -rf "$W"; mkdir -p "$W"; git -C /repo archive HEAD | tar -x -C "$W"
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bld() { (CC=gcc CXX=g++ cmake -S /opt/vp/cmake -B "$W/_build" -G Ninja -DREPO="$W" -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS="-O2 -g" && ninja -C "$W/_build") >"$W/_b.log" 2>&1; }
D=/tmp/seeddemo_$id; rm -rf "$D"; mkdir "$D"; cp -r "$S"/* "$D"/; rm -f "$D"/*.diff "$D"/meta.json
bld || { echo "$id: BASE BUILD FAILS"; exit 1; }
(cd "$W" && timeout 300 bash "$D/demo.sh" >"$W/_d0.log" 2>&1); r0=$?
(cd "$W" && git init -q . && git apply "$S/patch.diff") || { echo "$id: PATCH FAILS"; exit 1; }
bld || { echo "$id: BUILD FAILS"; tail -20 "$W/_b.log"; exit 1; }
nf=0; for t in test_blockmem_gridmap test_grid_astar test_cyclic_vec test_costmap_bbf test_trajectory_tracker_filter; do
  timeout 120 "$W/_build/$t" >"$W/_t_$t.log" 2>&1 || { nf=$((nf+1)); grep FAILED "$W/_t_$t.log" | head -3; }; done
(cd "$W" && timeout 300 bash "$D/demo.sh" >"$W/_d1.log" 2>&1); r1=$?
echo "$id ($prop): demo base=$r0 patched=$r1 failing test binaries=$nf"
if [ -z "$2" ]; then VC_REPO=$W timeout 900 ./check.sh "$prop" quick | tail -3; fi
rm -rf "/tmp/seedwork_$id" "/tmp/seeddemo_$id"

#!/bin/bash
# seedtest.sh ID... : build /repo HEAD in /tmp/sr, run each demo clean and patched, then this property's check against the patched tree
R=/tmp/sr
export LANG=C.UTF-8 CC=/usr/bin/gcc-13 CXX=/usr/bin/g++-13
git -C /repo worktree prune; if [ ! -d $R ]; then git -C /repo worktree add -q --detach $R HEAD; fi
git -C $R checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C $R checkout -q -- .
L=/usr/lib/llvm-14
mkdir -p $R/_build/lib && ln -sfn $L/lib/clang $R/_build/lib/clang
bld() { if [ ! -f $R/_build/build.ninja ]; then cmake -S $R -B $R/_build -G Ninja -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DLLVM_DIR=$L/lib/cmake/llvm -DClang_DIR=$L/lib/cmake/clang -DBINDER_ENABLE_TEST=OFF -Wno-dev >/tmp/sr.cmake 2>&1; fi; ninja -C $R/_build binder >/tmp/sr.log 2>&1; }
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C $R checkout -q -- . ; bld || { echo "$id: clean build FAILED"; continue; }
  (cd $R && timeout 300 bash $S/demo.sh >/tmp/sr.d 2>&1); c=$?
  git -C $R apply $S/patch.diff || { echo "$id: no apply"; continue; }
  bld || { echo "$id: patched build FAILED"; tail -3 /tmp/sr.log; git -C $R checkout -q -- .; continue; }
  (cd $R && timeout 300 bash $S/demo.sh >/tmp/sr.d2 2>&1); p=$?
  echo "$id [$P]: demo clean=$c patched=$p $(tail -1 /tmp/sr.d) | $(tail -1 /tmp/sr.d2)"
  if [ -z "$NOCHECK" ]; then (cd /verif && VERIF_REPO=$R BINDER_REPO=$R timeout 900 python3-vt check.py $P > /tmp/sr.c 2>&1; echo "   check exit $?: $(grep -E 'VIOLATION' /tmp/sr.c | head -1)"); fi
  git -C $R checkout -q -- .
done

#!/bin/bash
# seedtool.sh confirm ID   in a scratch clone: the demo passes, with the patch it builds, the tests pass, the demo fails
# seedtool.sh try ID [PROP...]   apply to /repo, run the checks, undo
. /opt/vp/env.sh
V=/verif/seeded/$2
SW=/tmp/sw
case $1 in
confirm)
  [ -d $SW ] || git clone -q /repo $SW
  cd $SW && git fetch -q origin && git checkout -q --force origin/HEAD && git clean -fdq
  export CARGO_TARGET_DIR=$SW/target-common
  cargo test --workspace --no-run --offline --locked >/tmp/sw.build 2>&1 || { tail -5 /tmp/sw.build; echo "base does not build"; exit 1; }
  REPO_TARGET=$SW/target-common bash $V/demo.sh >/tmp/sw.demo0 2>&1 || { tail -20 /tmp/sw.demo0; echo "DEMO FAILS ON THE UNCHANGED TREE"; exit 1; }
  git apply $V/patch.diff || exit 1
  cargo test --workspace --no-run --offline --locked >/tmp/sw.build 2>&1 || { grep -A8 "^error" /tmp/sw.build | head -40; echo "PATCH DOES NOT BUILD"; git checkout -q -- .; exit 1; }
  timeout 400 cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 --skip web_proxy::broker::tests --skip dht_large --skip gossip_large >/tmp/sw.test 2>&1
  grep -E "^test .*FAILED" /tmp/sw.test
  REPO_TARGET=$SW/target-common timeout 300 bash $V/demo.sh >/tmp/sw.demo1 2>&1; rc=$?
  git checkout -q -- .
  [ $rc = 0 ] && { echo "DEMO PASSES WITH THE PATCH"; exit 1; }
  tail -3 /tmp/sw.demo1; echo "confirmed $2 (demo rc $rc)";;
try)
  trap 'git -C /repo checkout -q -- .' EXIT
  git -C /repo apply $V/patch.diff || exit 1
  shift 2; cd /verif
  for p in ${@:-$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")}; do
    timeout 900 python3 vlib/check.py $p | grep -v "^note" | cut -c1-300; echo "rc=${PIPESTATUS[0]}"; done;;
esac

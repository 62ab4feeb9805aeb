#!/bin/bash
# try_seed.sh <id>...: confirms planted bugs in a scratch copy (applies, builds, passes the
# tests, demo passes without and fails with it). The copy is /tmp/sx, made when missing.
[ -d /tmp/sx ] || cp -a /repo /tmp/sx
cd /tmp/sx || exit 2
git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq
for id in "$@"; do
  d=/verif/seeded/$id
  git checkout -q -- . ; git clean -fdq
  [ "$NOCLEAN" ] || { (bash $d/demo.sh) >/tmp/sx.demo0 2>&1; r0=$?; }
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (. /opt/vp/env.sh; cd /tmp/sx; export CARGO_TARGET_DIR=/tmp/sx/target; timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8) >/tmp/sx.test 2>&1; rt=$?
  (bash $d/demo.sh) >/tmp/sx.demo1 2>&1; r1=$?
  echo "$id: demo clean=$r0 tests=$rt ($(grep -h '^test result' /tmp/sx.test | head -3 | tr '\n' ' ')) demo patched=$r1 $(grep -c 'test result: FAILED' /tmp/sx.demo1)"
  grep -h "^test .*FAILED" /tmp/sx.test | head
done
git checkout -q -- .

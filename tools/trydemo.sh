#!/bin/bash
# tools/trydemo.sh SEED...: build and test planted changes on a scratch copy of /repo and run their demonstrations there, without and with the change.
export R=/tmp/rc
for i in "$@"; do
  rm -rf $R; mkdir $R; cp -a /repo/. $R; rm -rf $R/target; git -C $R checkout -q -- .
  out=$i
  (cd $R && timeout 300 bash /verif/seeded/$i/demo.sh) >/tmp/demo.out 2>&1; out+=" clean=$?"
  git -C $R apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; continue; }
  sed "s#/repo\b#$R#g" /opt/vp/env.sh >/tmp/rc-env.sh
  t=$(cd $R && . /tmp/rc-env.sh; for c in $BUILD_CONFIGS; do run_cargo $c build 2>&1 | grep -E "^error|warning: unused" ; done
      for c in $TEST_CONFIGS; do run_cargo $c test --no-fail-fast --lib 2>&1 | grep -E "^error|test result" ; done)
  out+=" tests=$(grep -c 'test result: ok' <<<"$t")/$(grep -c . <<<"$t")"
  (cd $R && timeout 300 bash /verif/seeded/$i/demo.sh) >/tmp/demo.out 2>&1; out+=" patched=$?"
  echo "$out $(grep -m1 -E "panicked|error" /tmp/demo.out)"
done
rm -rf /tmp/rc

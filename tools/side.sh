#!/bin/bash
# tools/side.sh SEED...: try planted bugs against copies of /verif and /repo (with nice 19), so that /repo stays as it is.
# CHECKS=C01,C02 chooses checks other than the bug's own.
S=/tmp/side; mkdir -p $S/verif $S/repo
rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude replays /verif/ $S/verif/ 2>/dev/null || {
  (cd /verif && tar c --exclude=./target --exclude=./.git --exclude=./evidence --exclude=./replays .) | tar x -C $S/verif; }
sed -i "s#/repo#$S/repo#g" $S/verif/check.py $S/verif/harness/Cargo.toml $S/verif/probe/Cargo.toml
for i in "$@"; do
  rm -rf $S/repo; cp -a /repo $S/repo; git -C $S/repo checkout -q -- .
  [ "$i" = clean ] || git -C $S/repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])" 2>/dev/null)
  for c in $(echo "${CHECKS:-$p}" | tr , ' '); do
    s=$(date +%s); out=$(cd $S/verif && nice -n 19 python3 check.py $c 2>&1); rc=$?
    v=$(grep -c "^VIOLATION property=$c " <<<"$out")
    [ $rc = 1 ] && [ "$v" -gt 0 ] && r=CAUGHT || r=$([ $rc = 0 ] && echo quiet || echo "ERROR($rc) $(tail -c 500 <<<"$out")")
    echo "$i $c: $r [$(($(date +%s) - s)) s] $(grep '^VIOLATION' <<<"$out" | head -1 | cut -c1-150)"
  done
done

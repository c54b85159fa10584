#!/bin/bash
# seedtest.sh [-j N] [-p PROP,PROP] ID...: validates planted bugs (build, stable tests, demo both ways) and runs the property's check
# against them, each in a private mount namespace of its own with overlays over /repo and /verif, so nothing real is touched.
# NOCHECK=1 skips the check, NOVAL=1 the validation.
J=2; [ "$1" = -j ] && { J=$2; shift 2; }
P=; [ "$1" = -p ] && { P=$2; shift 2; }
base=/tmp/seedbase; rm -rf /tmp/seedbase; git clone -q /repo $base; cp /repo/Cargo.lock $base/
export NOCHECK NOVAL P base VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
one() {
  id=$1; d=/verif/seeded/$id; w=/tmp/sw/$id; rm -rf "/tmp/sw/$id"; mkdir -p $w/{u1,w1,u2,w2,demo}
  cp $d/* $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json; cp $d/patch.diff $d/meta.json $w/
  props=${P:-$(jq -r .property $d/meta.json)}
  cat > $w/run.sh <<'X'
id=$1; w=$2; props=$3
mount -t overlay overlay -o lowerdir=$base,upperdir=$w/u1,workdir=$w/w1 /repo || exit 9
mount -t overlay overlay -o lowerdir=/verif,upperdir=$w/u2,workdir=$w/w2 /verif || exit 9
cd /repo
if [ -z "$NOVAL" ]; then bash $w/demo/demo.sh >$w/o0 2>&1; r0=$?; fi
git apply $w/patch.diff || echo "$id APPLY FAILED"
if [ -z "$NOVAL" ]; then
  bash $w/demo/demo.sh >$w/o1 2>&1; r1=$?
  (. /opt/vp/env.sh; CARGO_TARGET_DIR=$w/target timeout 900 cargo test --workspace --offline >$w/t 2>&1)
  np=$(grep -E '^test .* ok$' $w/t | wc -l); nf=$(grep -E '^test .*FAILED$' $w/t | wc -l)
  v=OK; [ $r0 = 0 ] && [ $r1 != 0 ] && [ $nf = 0 ] && [ $np -ge 155 ] || v=BAD
  echo "$id valid=$v demo $r0/$r1 tests pass=$np fail=$nf"; [ $v = BAD ] && { for f in o0 o1; do tail -n 5 $w/$f | cut -c1-300; done; grep -E 'FAILED|^error' $w/t | head -n 5; }
  rm -rf $w/target
fi
if [ -z "$NOCHECK" ]; then for prop in ${props//,/ }; do
  (cd /verif; timeout 900 python3 check.py $prop >$w/c.$prop 2>&1); rc=$?
  echo "$id check $prop rc=$rc $(grep -m1 -E '^VIOLATION|^NO VERDICT|^INCONC' $w/c.$prop | cut -c1-200)"
  [ $rc = 1 ] && grep -m1 '^case' $w/c.$prop | cut -c1-400
done; fi
X
  unshare -Urm bash $w/run.sh $id $w $props; rm -rf "/tmp/sw/$id/u1" "/tmp/sw/$id/u2" "/tmp/sw/$id/w1" "/tmp/sw/$id/w2"
}
export -f one
printf '%s\n' "$@" | xargs -P $J -I{} bash -c 'one {}'

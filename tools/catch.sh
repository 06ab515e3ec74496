#!/bin/bash
# catch.sh SECS [id...]: runs the check of each planted bug's property against
# it, in an isolated copy of /repo and of the simulator (under /tmp/cw), and
# prints what was caught. SEED picks the campaign's seed; PROP another property.
. /opt/vp/env.sh
secs=$1; shift
ids=${*:-$(ls /verif/seeded)}
C=/tmp/cw; mkdir -p $C
[ -d $C/repo ] || cp -a /repo $C/repo
mkdir -p $C/sim
rsync -a --delete --exclude target /verif/sim/ $C/sim/ 2>/dev/null || { find $C/sim -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} +; for f in /verif/sim/* /verif/sim/.cargo; do [ -e $f ] && [ $(basename $f) != target ] && cp -r $f $C/sim/; done; }
sed -i "s#\"/repo\"#\"$C/repo\"#" $C/sim/work/Cargo.toml
grep -rl '/repo' $C/sim/rustc-wrap.sh | xargs -r sed -i "s#/repo#$C/repo#g"
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$C/sim/target RUSTC_WRAPPER=$C/sim/rustc-wrap.sh
for id in $ids; do
  cd $C/repo; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD; git clean -qfd
  if [ -f /verif/seeded/$id/patch.diff ]; then pf=/verif/seeded/$id/patch.diff; p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; else pf=$id; p=$PROP; fi
  git apply $pf || { echo "$id APPLYFAIL"; continue; }
  cd $C/sim; find target/release/.fingerprint -maxdepth 1 -name 'sparsetools-*' -exec rm -rf {} + 2>/dev/null
  cargo build --release --offline -q -p dst >$C/build.log 2>&1 || { echo "$id BUILDFAIL"; tail -5 $C/build.log; continue; }
  for q in $p; do
    t0=$(date +%s.%N)
    DST_ROOT=$C/out VERIF_SEED=${SEED:-1} target/release/dst check $q --secs $secs >$C/log 2>&1; r=$?
    printf '%s %s rc=%s %.1fs %s\n' $id $q $r $(echo "$(date +%s.%N) - $t0" | bc) "$(grep -v -e VIOLATION -e minimised -e held $C/log | head -1 | cut -c1-140)"
  done
done

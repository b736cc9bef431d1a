#!/bin/bash
# Development aid: try a planted bug in a private mount namespace, where /repo
# and /verif are copies.
#   trial.sh SLOT PATCH|none [test] [demo DIR] [check IDS...]
slot=/tmp/slot$1; patch=$2; shift 2
mkdir -p $slot/repo $slot/verif
rsync -a --delete --exclude target /repo/ $slot/repo/
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude out /verif/ $slot/verif/
for d in "$@"; do if [ -f "$d/demo.sh" ]; then rm -rf $slot/demo; cp -r "$d" $slot/demo; fi; done
if [ "$patch" != none ]; then git -C $slot/repo apply "$(realpath $patch)" || exit 9; fi
exec unshare -rm bash -s "$slot" "$@" <<'I'
slot=$1; shift
mount --bind $slot/repo /repo && mount --bind $slot/verif /verif || exit 8
mkdir -p $slot/vp; rsync -a /opt/vp/ $slot/vp/; mount --bind $slot/vp /opt/vp
cd /repo
while [ $# -gt 0 ]; do
  case $1 in
  test) shift
    bash /opt/vp/build.sh > $slot/build.log 2>&1 || echo "BUILD FAILED"
    bash /opt/vp/test.sh $slot/t.json > /dev/null 2>&1
    python3 - $slot/t.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
print('tests passed', len(o['passed']), 'failed', len(o['failed']), o['failed'][:3])
P
    ;;
  demo) (timeout 300 bash $slot/demo/demo.sh > $slot/demo.log 2>&1; echo "demo exit $?"; tail -2 $slot/demo.log | cut -c1-300); shift 2;;
  check) shift
    cd /verif
    for p in "$@"; do
      VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} timeout 900 python3 run.py $p > $slot/check.$p.log 2>&1; rc=$?
      echo "$p exit $rc: $(grep -E 'VIOLATION|CHECK ERROR' $slot/check.$p.log | head -1 | cut -c1-200) $(grep -E '^shrunk|KNOWN' $slot/check.$p.log | head -1 | cut -c1-260)"
    done
    shift $#;;
  esac
done
I

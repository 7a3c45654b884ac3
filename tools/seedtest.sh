#!/bin/bash
# seedtest.sh <seed id> [noquick]: confirm a planted bug in a scratch copy, then run its property's quick check on the copy.
# (The copies live under /tmp; /repo is untouched.)
id=$1; S=/verif/seeded/$id; W=/tmp/seed.$id.$$
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W/demo && cp -a /repo $W/repo && cp -a $S/. $W/demo/
rm -f $W/demo/*.diff $W/demo/meta.json
cd $W/repo && git checkout -q -- . 
fail() { echo "SEED $id: $*"; rm -rf "$W"; exit 1; }
(timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1) || { cat $W/d0 | tail -20; fail "demo fails on the unchanged tree"; }
git apply $S/patch.diff || fail "patch does not apply"
for t in bomba_test bomba_sync_client_test bomba_tcp_server_test; do
  g++ --std=c++20 -Wall -w -g -pthread -include cstdint -include algorithm $t.cpp -o $W/$t 2>$W/err & p="$p $!"
done
for q in $p; do wait $q || { cat $W/err | head -20; fail "does not build"; }; done
cmp -s <(git show HEAD:tls/tls_server.hpp) tls/tls_server.hpp && cmp -s <(git show HEAD:tls/tls_sync_client.hpp) tls/tls_sync_client.hpp || echo "(touches tls; build it by hand)"
(flock 9; timeout 120 $W/bomba_test > $W/tests.out 2>&1) 9>/tmp/seedtest.lock
python3 /opt/vp/sections.py $W/tests.out $? > $W/res.lines
python3 - $W/res.lines <<'P' || fail "tests break"
import sys, json
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
passed = {l[5:].strip() for l in open(sys.argv[1]) if l.startswith('PASS ')}
bad = sorted(stable - passed)
if bad: print(bad[:5]); sys.exit(1)
P
(timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1) && fail "demo passes with the patch"
echo "SEED $id: planted bug counts"
if [ "$2" != noquick ]; then
  for P in ${2:-$prop}; do
  BOMBA_REPO=$W/repo VERIF_SEED=1 VERIF_TIER=quick /verif/check.sh $P quick > $W/q 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$P" $W/q; then echo "SEED $id: CAUGHT by $P"; grep -m2 rejected $W/q | cut -c1-300; else echo "SEED $id: MISSED by $P (rc $rc)"; tail -5 $W/q; fi
  done
fi
rm -rf "$W"

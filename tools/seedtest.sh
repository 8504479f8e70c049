#!/bin/bash
# seedtest.sh <id>...: confirm planted changes in a scratch copy of /repo under /tmp/sd (never touches /repo):
# the patch applies and builds, the stable tests pass, demo.sh passes without and fails with the patch.
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
R=/tmp/sd/repo
mkdir -p /tmp/sd
[ -d $R ] || cp -a /repo $R
git -C $R fetch -q /repo HEAD && git -C $R checkout -qf FETCH_HEAD
for id in "$@"; do
  D=/verif/seeded/$id; rm -rf /tmp/sd/demo; mkdir /tmp/sd/demo
  cp $D/* /tmp/sd/demo/; rm -f /tmp/sd/demo/patch.diff /tmp/sd/demo/meta.json
  (cd $R && git checkout -q -- . && timeout 300 bash /tmp/sd/demo/demo.sh >/tmp/sd/demo0.log 2>&1); d0=$?
  (cd $R && git apply $D/patch.diff) || { echo "$id: patch does not apply"; continue; }
  (cd $R && timeout 780 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/sd/test.log 2>&1)
  t=$(python3 - <<'P'
import json,re
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
log=open('/tmp/sd/test.log').read()
ok=set(re.findall(r'^test (\S+) \.\.\. ok',log,re.M))
miss=[x for x in b if not any(x.endswith(o) for o in ok)]
print('tests-ok' if not miss else 'TESTS-FAIL %s'%miss[:4])
P
)
  (cd $R && timeout 300 bash /tmp/sd/demo/demo.sh >/tmp/sd/demo1.log 2>&1); d1=$?
  git -C $R checkout -q -- .
  echo "$id: demo unchanged rc=$d0, with patch rc=$d1, $t : $(tail -1 /tmp/sd/demo1.log | cut -c1-150)"
done

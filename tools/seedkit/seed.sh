#!/bin/bash
# seed.sh ID : verifies /verif/seeded/ID in a scratch copy bound... build.sh uses /repo so we build by hand with cmake in the copy
set -u
id=$1; S=/verif/seeded/$id; W=/tmp/sw_$id
rm -rf "$W"; cp -a /repo "$W" || exit 9
cd "$W" && git apply --check $S/patch.diff || { echo "$id PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
EOF_=1
# run inside a private view where /repo is the copy: user namespace not needed as root with unshare -m? use bind through unshare
unshare -m bash -c "mount --bind $W /repo && cd /repo && rm -rf _build && git apply $S/patch.diff && bash /opt/vp/build.sh >/tmp/sw_$id.build 2>&1 && bash /opt/vp/test.sh /tmp/sw_$id.json >/tmp/sw_$id.test 2>&1; tail -1 /tmp/sw_$id.test; cp -a $S /tmp/sw_${id}_demo; bash /tmp/sw_${id}_demo/demo.sh >/tmp/sw_$id.demo1 2>&1; echo patched demo rc=\$?" || echo "UNSHARE FAILED"
unshare -m bash -c "mount --bind $W /repo && cd /repo && git checkout -q -- . && bash /opt/vp/build.sh >/tmp/sw_$id.build 2>&1; bash /tmp/sw_${id}_demo/demo.sh >/tmp/sw_$id.demo0 2>&1; echo clean demo rc=\$?"
rm -rf "$W" /tmp/sw_${id}_demo

#!/bin/bash
# tryseed.sh ID PROP... : run checks against a planted bug, in a scratch copy of /repo
ID=$1; shift
W=/tmp/trywt-$ID; rm -rf "$W"; cp -a /repo "$W"; git -C "$W" apply /verif/seeded/$ID/patch.diff || exit 3
for p in "$@"; do
 PYDV_REPO=$W python3-vt /verif/run.py $p > /tmp/try-$ID-$p.log 2>&1; echo "$ID $p exit $?"; grep -a VIOLATION /tmp/try-$ID-$p.log | head -3; head -1 /tmp/try-$ID-$p.log
done
rm -rf "$W"

#!/bin/bash
# Work on planted bugs in a scratch worktree /tmp/seedwt/repo:
#   seed.sh new ID       clean worktree (edit it, then 'save')
#   seed.sh save ID      diff of the worktree -> seeded/ID/patch.diff, library files copied beside it
#   seed.sh demo ID      demo.sh on the unchanged tree (must pass) and with the patch (must fail)
#   seed.sh check ID P.. checks on the patched tree
#   seed.sh drop         removes the scratch worktree
set -u
V=$(cd "$(dirname "$0")/.." && pwd); W=/tmp/seedwt; R=$W/repo; B=$W/base
S=$V/seeded/${2:-}
fresh() { mkdir -p $W; for d in $R $B; do [ -d $d ] || git -C /repo worktree add -q --detach $d HEAD; git -C $d checkout -q --detach $(git -C /repo rev-parse HEAD); git -C $d checkout -q -- .; done; }
bin() { (cd $V && VP_REPO=$1 python3 -c "
from vp import build
print(build.build()[0])") ; }
lib() { cp $V/vp/nz.py $V/vp/nntp.py $V/tools/demolib.py $S/; }
case $1 in
new) fresh; mkdir -p $S;;
save) mkdir -p $S; git -C $R diff > $S/patch.diff; lib; cat $S/patch.diff;;
demo) fresh; lib; git -C $R apply $S/patch.diff || exit 1
  for d in $B $R; do mkdir -p $d/_build; x=$(bin $d) || exit 1; ln -sfn $x $d/_build/nzbget; T=$(mktemp -d /tmp/seeddemo.XXXX); cp -r $S/. $T/; rm -f $T/*.diff $T/meta.json
    (cd $d; timeout 300 bash $T/demo.sh) > $W/out 2>&1; echo "$d: exit $?"; tail -8 $W/out; rm -rf $T; done; git -C $R checkout -q -- .;;
check) fresh; git -C $R apply $S/patch.diff || exit 1; shift 2
  for p in "$@"; do (cd $V && VP_REPO=$R ./check $p ${TIER:-quick}) > $W/check 2>&1; echo "$p exit $?"; cut -c1-200 $W/check | tail -${N:-5}; done; git -C $R checkout -q -- .;;
drop) for d in $R $B; do git -C /repo worktree remove --force $d; done;;
esac

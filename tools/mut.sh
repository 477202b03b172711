#!/bin/bash
# mut.sh PATCH PROP... : runs checks against a scratch copy of /repo with PATCH applied (development only)
p=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/mut.XXXXXX); git -C /repo worktree prune 2>/dev/null
cp -a /repo "$d/repo"; cd "$d/repo" && git checkout -q -- . && git apply "$p" || { echo APPLYFAIL; exit 3; }
for c in "$@"; do ZV_REPO=$d/repo ZV_WORK=$d/w VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 /verif/check $c ${TIER:-quick} | cut -c1-${COLS:-400}; done
rm -rf "$d"

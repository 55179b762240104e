#!/bin/bash
# quiet.sh DIFF... : every check on a copy of /repo with behaviour-preserving edits applied, in a mount
# (IDS="R10 ...": these checks only)
# namespace where the copies stand at /repo and /verif. All must exit 0.
d=$(mktemp -d /tmp/quietXXXXXX)
trap 'rm -rf "$d"' EXIT
for x in repo verif; do
  mkdir "$d/$x"; (cd /$x && tar c --exclude=./.git --exclude=./seeded --exclude=./target .) | tar x -C "$d/$x"
done
for f in "$@"; do f=$(realpath "$f"); (cd "$d/repo" && patch -sp1 < "$f") || exit 2; done
unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && mount --bind \$(mktemp -d $d/tXXX) /tmp && cd /verif && bash scripts/setup.sh >/dev/null 2>&1 && if [ -n '$IDS' ]; then for i in $IDS; do python3 scripts/check.py \$i; echo \$i rc=\$?; done; else bash scripts/runall.sh; fi"

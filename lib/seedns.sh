#!/bin/bash
# runs lib/seedtest.py (or CMD after --cmd) on private copies of /repo and /verif, so that /repo is not touched
# usage: seedns.sh [seedtest arguments] | seedns.sh --cmd 'shell command'
w=$(mktemp -d /tmp/seedns.XXXXXX)
cp -a "${SEED_REPO:-/repo}" "$w/repo"; cp -a "${SEED_VERIF:-/verif}" "$w/verif"
if [ "$1" = --cmd ]; then c=$2; else c="cd /verif && python3 lib/seedtest.py $*"; fi
unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && $c"
rm -rf -- "$w"

#!/bin/bash
# mut.sh PATCH ID...   run checks against a scratch copy of /repo with PATCH applied (development)
set -e
M=/tmp/mut; mkdir -p $M
rsync -a --delete --exclude target --exclude .git /repo/ $M/ 2>/dev/null || { find $M -mindepth 1 -delete; cp -a /repo/. $M/; }
p=$(realpath "$1"); shift
(cd $M && patch -s -p1 < "$p")
for i in "$@"; do VH_REPO=$M python3 /verif/check.py $i || true; done

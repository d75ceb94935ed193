#!/bin/bash
# try.sh PATCH PROPERTY... : run checks against a scratch copy of /repo with PATCH applied
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/vtry.XXXXXX)
git -C /repo archive HEAD | tar -x -C "$d"
( cd "$d" && git init -q . && git apply --whitespace=nowarn "$p" ) || { rm -rf "$d"; exit 9; }
for c in "$@"; do
  VERIF_REPO=$d VERIF_SEED=${VERIF_SEED:-1} python3 /verif/check.py "$c"; echo "exit $?"
done
rm -rf "$d"

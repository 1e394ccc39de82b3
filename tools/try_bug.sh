#!/bin/bash
# try_bug.sh <patch> <property>...   apply a patch to /repo, run quick checks, undo it
p="$(realpath "$1")"; shift
cd /repo && git diff --quiet || { echo "/repo is not clean"; exit 3; }
git apply "$p" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  bash /verif/check.sh "$id" quick 2>&1 | grep -E "VIOLATION|runs|error" | cut -c1-300
done

#!/bin/sh
# usage: tools/mut.sh PATCH CHECK...   runs checks against a scratch copy of /repo with PATCH applied
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. "$d/"
git -C "$d" apply "$(realpath "$1")"
shift
for c in "$@"; do
  MC_REPO="$d" /opt/venv/bin/python /verif/checks/main.py "$c" 2>/dev/null | cut -c1-300 | head -12 || true
done
rm -rf "$d"

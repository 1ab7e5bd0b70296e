#!/bin/bash
# try.sh BUG CHECK...: run checks against a copy of /repo with a planted bug
w=/tmp/try-$1; rm -rf "$w"; cp -a /repo "$w"; git -C "$w" checkout -q -- .; git -C "$w" apply /verif/seeded/$1/patch.diff || exit 9
b=$1; shift
for c in "$@"; do VERIF_REPO=$w bash /verif/check.sh $c > /tmp/try-$b.log 2>&1; echo "$b $c exit $? $(grep -m1 -A0 "^  " /tmp/try-$b.log | cut -c1-160)"; done
rm -rf "$w" /tmp/try-$b.log

#!/bin/bash
# tools/mut.sh <patch|-> <property>...: run checks against a scratch copy of /repo with a patch applied (stdin or file)
T=$(mktemp -d /tmp/mutXXXXXX); cp -a /repo/. $T/; P=$1; shift
if [ "$P" = - ]; then cat > $T.diff; else cp "$P" $T.diff; fi
git -C $T apply $T.diff || { echo "patch does not apply"; rm -rf "$T" "$T.diff"; exit 9; }
for p in "$@"; do VP_REPO=$T timeout 900 python3-vt /verif/check.py $p; echo "exit $?"; done
rm -rf "$T" "$T.diff"

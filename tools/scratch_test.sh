#!/bin/bash
# scratch_test.sh DIR OUT.json : configure, build and run the repository's tests in a scratch copy/worktree of /repo.
# (what /opt/vp/build.sh and test.sh do for /repo itself)
W=$(realpath "$1"); OUT=$(realpath -m "$2")
mkdir -p "$W/_build"
sed "s#/repo#$W#g" /opt/vp/build.sh > "$W/_build.sh.tmp"
sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W/_build.sh.tmp#g" /opt/vp/test.sh > "$W/_test.sh.tmp"
[ -n "$BUILD_ONLY" ] && exec bash "$W/_build.sh.tmp"
bash "$W/_test.sh.tmp" "$OUT"

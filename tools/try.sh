#!/bin/bash
# try.sh <patch or commit or "-"> <id>...: runs checks against a scratch copy of /repo with a change in it.
# Works in /tmp/try.$SLOT only; /repo and /verif stay as they are.
W=/tmp/try.${SLOT:-0}
mkdir -p $W
P=$1; shift
rm -rf $W/repo; mkdir -p $W/repo
git -C /repo archive ${BASE:-HEAD} | tar x -C $W/repo
[ -d /repo/.git ] && (cd $W/repo && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x)
if [ "$P" != "-" ]; then (cd $W/repo && git apply "$P") || { echo "PATCH DOES NOT APPLY"; exit 3; }; fi
mkdir -p $W/verif
(cd ${VSRC:-/verif} && git ls-files -z --cached --others --exclude-standard | tar c --null -T - 2>/dev/null) | tar x -C $W/verif
grep -rlZ -e /repo $W/verif --include=Cargo.toml --include=*.py --include=*.mjs --include=*.rs --include=*.sh --include=*.js 2>/dev/null | xargs -0 sed -i "s#/repo\b#$W/repo#g"
cd $W/verif
for id in "$@"; do
  out=$(timeout 900 ./check $id quick 2>&1); rc=$?
  echo "$id rc=$rc $(echo "$out" | grep -v '^VIOLATION' | tail -1 | cut -c1-${WIDTH:-260})"
done

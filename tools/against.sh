#!/bin/bash
# tools/against.sh <patch file | commit to revert> ID...   run checks against a scratch copy of /repo with a change applied
P=$1; shift
W=$(mktemp -d /tmp/againstXXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
if [ -f "$P" ]; then git -C "$W/repo" apply "$(readlink -f "$P")" || { echo "does not apply"; exit 9; }
else git -C "$W/repo" revert -n "$P" || { echo "cannot revert"; exit 9; }; fi
for id in "$@"; do
  VERIF_REPO="$W/repo" VERIF_EVIDENCE="$W/ev" "$(dirname "$0")/../bin/check" "$id" > "$W/out" 2>&1; rc=$?
  echo "$id rc=$rc $(grep -c "VIOLATION property=$id" "$W/out")"; [ -n "$VERBOSE" ] && head -c 2500 "$W/out"
done

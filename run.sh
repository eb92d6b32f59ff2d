#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   (quick also honours VERIF_TIER)
# Rebuilds the library from /repo's working tree, then runs the property's check.
# Checks running side by side wait for each other's build (VF_NOBUILD=1 trusts the build that is there).
cd "$(dirname "$0")" || exit 2
HERE=$PWD
[ -n "$2" ] && export VERIF_TIER=$2
. /opt/vp/env.sh
exec 9>>/tmp/vf-build.lock
if [ -z "$VF_NOBUILD" ]; then
  flock -w 300 9
  LOG=$(mktemp /tmp/vf-build.XXXXXX)
  if ! vp_rebuild > "$LOG" 2>&1; then
    echo "build of /repo failed:"; tail -30 "$LOG"; rm -f "$LOG"; exit 2
  fi
  rm -f "$LOG"
fi
flock -s -w 300 9
cd "$HERE" || exit 2
exec "$PY" -B vf/main.py "$1"

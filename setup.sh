#!/bin/bash
# Nothing to compile: the specification is interpreted by TLC and the harness by Python.
# Checks that the tools answer and that every module of the specification parses.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
"$PY" -c 'import numpy' || exit 1
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")") > /tmp/vf-sany.$$ 2>&1
  if grep -qE "^\*\*\* (Parse|Semantic|Abort)|Fatal errors|Could not parse|\*\*\* Errors" /tmp/vf-sany.$$; then
    cat /tmp/vf-sany.$$; rm -f /tmp/vf-sany.$$; exit 1
  fi
done
rm -f /tmp/vf-sany.$$
echo "setup ok"

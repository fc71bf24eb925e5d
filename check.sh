#!/bin/bash
# check.sh ID [TIER]: decides one property of /repo's working tree.
# Exit 0: it held on everything explored. Exit 1: VIOLATION. Anything else: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=$("$here/build.sh") || exit 2
export ILCHECK_GUIDED="${ILCHECK_GUIDED-$here/target/cov/release/ilcheck}"
exec "$bin" run "$id" "$tier" "${VERIF_SEED:-1}" "$here"

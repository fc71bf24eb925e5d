#!/bin/bash
# private.sh COMMAND...: runs it where /repo and /verif are private copies, so that planted bugs
# can be tried while something else uses the real ones. Never used by any registered check.
set -eu
d=${PRIVATE_DIR:-/tmp/private}
mkdir -p $d/repo $d/verif
cp -au /verif/. $d/verif/
cp -a /repo/. $d/repo/
git -C $d/repo checkout -q -- .
exec unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && exec \"\$@\"" bash "$@"

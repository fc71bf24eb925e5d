#!/bin/bash
# Builds everything the checks need from the committed files.
set -u
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" >/dev/null

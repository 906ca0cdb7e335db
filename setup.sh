#!/bin/bash
# Warms the Go build cache by building the simulated server once.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
bash "$here/sim/build.sh" "$t"; rc=$?
rm -rf "$t"
exit $rc

#!/bin/bash
# check.sh <property> <quick|thorough>   build from /repo's working tree, search, report
# check.sh replay <file> [-v]            build from /repo's working tree, replay one file
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/verif-sim.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
trap 'exit 2' INT TERM
bash "$here/sim/build.sh" "$tmp" || exit 2
if [ "$1" = replay ]; then
  shift
  f=$1; shift
  "$tmp/vsim" replay -in "$f" "$@"
  exit $?
fi
case ${2:-quick} in
  quick) secs=${VERIF_SECS:-20}; min=40 ;;
  thorough) secs=${VERIF_SECS:-600}; min=120 ;;
  *) echo "unknown tier $2"; exit 2 ;;
esac
"$tmp/vsim" check -prop "$1" -tier "${2:-quick}" -seed "${VERIF_SEED:-1}" -secs "$secs" -minsecs "$min" \
  -evidence "$here/evidence" -known "$here/known-findings.jsonl" -scratch "$tmp"
exit $?

#!/bin/bash
# build.sh OUTDIR: rewrites /repo's current working tree for simulation and builds OUTDIR/vsim.
# Exit 2 on any failure. Writes only under OUTDIR and the Go build cache.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GOWORK=off
out=$1
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
fail() { echo "BUILD-ERROR: $*" >&2; exit 2; }
mkdir -p "$out/src" "$out/gen" "$out/tool" || fail mkdir
# the tool is built from a copy so that go never rewrites files under /verif
cp -r "$here/simgen/." "$out/tool/" || fail copy
(cd "$out/tool" && go build -o "$out/simgen" .) || fail "simgen does not build"
(cd "$repo" && find . -name '*.go' ! -name '*_test.go' -not -path './.git/*' -print0 | tar --null -T - -cf - ) | tar -C "$out/src" -xf - || fail copy
cp "$repo/go.mod" "$repo/go.sum" "$out/src/" || fail copy
extra=github.com/SmartBrave/Athena/easyio
grep -q 'SmartBrave/Athena/broadcast' "$repo/go.mod" && extra=$extra,github.com/SmartBrave/Athena/broadcast
"$out/simgen" -src "$out/src" -as /repo -out "$out/gen" -rt "$here/simrt" -extra "$extra" || fail "simgen failed"
lines=""
for d in "$out"/gen/*/; do
  d=${d%/}
  m=$(basename "$d")
  case $m in
    github.com_sbraveyoung_GGmpeg) mod=github.com/sbraveyoung/GGmpeg ;;
    github.com_SmartBrave_Athena_easyio) mod=github.com/SmartBrave/Athena/easyio ;;
    github.com_SmartBrave_Athena_broadcast) mod=github.com/SmartBrave/Athena/broadcast ;;
    *) fail "unexpected module $m" ;;
  esac
  printf 'module %s\n\ngo 1.21\n' "$mod" > "$d/go.mod"
  if [ "$mod" = github.com/sbraveyoung/GGmpeg ]; then
    sed -n '/^require/,/^)/p' "$repo/go.mod" >> "$d/go.mod"
  fi
  printf '\nrequire verif/simrt v0.0.0\n' >> "$d/go.mod"
  lines="$lines
replace $mod => $d"
done
cat > "$out/h.mod" <<E2
module verif/harness

go 1.24

require (
	github.com/sbraveyoung/GGmpeg v0.0.0
	verif/simrt v0.0.0
)

replace verif/simrt => $here/simrt
$lines
E2
cp "$repo/go.sum" "$out/h.sum"
mkdir -p "$out/harness"
cp "$here"/harness/*.go "$out/harness/" || fail copy
cp "$out/h.mod" "$out/harness/go.mod"; cp "$out/h.sum" "$out/harness/go.sum"
(cd "$out/harness" && go build -trimpath -o "$out/vsim" .) || fail "the simulated server does not build"

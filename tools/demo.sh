#!/bin/bash
# exit 0: the property holds on the code in the current directory; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
{
  printf '{"Replace": {'
  sep=
  for f in "$here"/*.go; do printf '%s"%s/zzdemo/%s": "%s"' "$sep" "$PWD" "$(basename "$f")" "$f"; sep=', '; done
  printf '}}\n'
} > "$t/overlay.json"
GOFLAGS=-mod=readonly go build -buildvcs=false -overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 99
cd "$t" && timeout 240 ./demo

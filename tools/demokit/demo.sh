#!/bin/bash
# Exit 0 when the behaviour holds. Runs with the repository as working directory.
d="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
r="$(pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
{ echo '{"Replace":{'; s=""; for f in "$d"/*_test.go; do echo "$s\"$r/zz_$(basename "$f")\":\"$f\""; s=","; done; echo '}}'; } > "$t/overlay.json"
timeout 250 go test -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestDemo' .

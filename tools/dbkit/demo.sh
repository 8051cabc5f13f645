#!/bin/bash
# Exit 0 when the behaviour holds. Runs with the repository as working directory.
d="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
r="$(pwd)"
p="$(cat "$d/pkg")"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
{ echo '{"Replace":{'; s=""
  # the package's own tests need a database server as soon as they are loaded
  for f in "$r/$p"/*_test.go; do [ -f "$f" ] && { echo "$s\"$f\":\"\""; s=","; }; done
  for f in "$d"/*_test.go; do echo "$s\"$r/$p/zz_$(basename "$f")\":\"$f\""; s=","; done; echo '}}'; } > "$t/overlay.json"
timeout 280 go test -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestDemo' "./$p"

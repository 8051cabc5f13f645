#!/bin/bash
# check.sh PROPERTY TIER: decide one property on the current tree of /repo.
d="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
if [ ! -x "$d/bin/checker" ] || [ -n "$(find "$d/checker" -name '*.go' -newer "$d/bin/checker" -print -quit)" ]; then
  "$d/setup.sh" || exit 2
fi
exec "$d/bin/checker" -property "$1" -tier "${2:-quick}" -repo /repo -verif "$d"

#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the analyser when needed and decides one property on /repo
here="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-quick}"
bin="$here/bin/checker"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$bin" -print -quit)" ]; then
  "$here/build_checker.sh" || exit 2
fi
exec "$bin" -property "$1" -tier "$tier" -repo "${REPO:-/repo}" -out "$here"

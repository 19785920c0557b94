#!/bin/bash
# run.sh ID [quick|thorough]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
id=$1; tier=${2:-${VERIF_TIER:-quick}}
newer=
[ -x bin/verif ] && newer=$(find engine -name '*.go' -newer bin/verif -print -quit)
if [ ! -x bin/verif ] || [ -n "$newer" ]; then ./setup.sh >&2 || { echo "engine build failed" >&2; exit 2; }; fi
export VERIF_TIER=$tier
exec ./bin/verif -verif "$PWD" -prop "$id" -tier "$tier"

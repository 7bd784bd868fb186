#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Decides one property on /repo's current working tree.
cd "$(dirname "$0")"
tier=${2:-${VERIF_TIER:-quick}}
[ -x bin/vpengine ] || ./build_engine.sh || exit 3
for f in engine/*.go; do
  if [ "$f" -nt bin/vpengine ]; then ./build_engine.sh || exit 3; break; fi
done
. /opt/vp/env.sh
secs=400; [ "$tier" = thorough ] && secs=${VP_SECS:-3000}
exec ./bin/vpengine -prop "$1" -tier "$tier" -verif "$PWD" -harness "$PWD/harness" -secs "$secs"

#!/bin/bash
# bash check.sh Cxx: decides one property on /repo's working tree (VERIF_TIER=quick|thorough).
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
bash setup.sh || exit 2
exec bin/engine -prop "$1" -tier "${VERIF_TIER:-quick}" -repo "${VERIF_REPO:-/repo}" -verif "$PWD"

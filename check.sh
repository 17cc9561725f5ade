#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
bash "$VERIF/build.sh" >&2 || { echo "the analyser does not build" >&2; exit 2; }
exec "$VERIF/bin/vsa" -repo "${VSA_REPO:-/repo}" -verif "$VERIF" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"

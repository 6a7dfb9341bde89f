#!/bin/bash
# check.sh PROPERTY [TIER]: verifies the contracts of one property against /repo's current source.
cd "$(dirname "$0")" || exit 2
. ./setup.sh >&2 || exit 2
exec ./bin/govc -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$PWD" -contracts "$PWD/contracts" -repo "${VERIF_REPO:-/repo}"

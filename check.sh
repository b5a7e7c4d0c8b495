#!/bin/sh
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
sh ./setup.sh >&2 || exit 2
tier=${2:-${VERIF_TIER:-quick}}
exec ./.cache/eng -prop "$1" -tier "$tier" -repo /repo -verif "$PWD"

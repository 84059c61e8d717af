#!/bin/bash
# check.sh ID [quick|thorough]    decide one property on /repo's working tree
# check.sh replay FILE            execute a replay file
# check.sh determinism ID [runs]  compare executions across process counts
# check.sh setup                  build the framework once
cd "$(dirname "$0")" || exit 2
verif=$PWD
. /opt/vp/env.sh || exit 2
unset GOOS GOARCH GOWORK
mkdir -p .build || exit 2
tool=$(mktemp .build/veriftool.XXXXXX) || exit 2
trap 'rm -f "$verif/$tool"' EXIT
(cd tool && GOWORK=off go build -o "../$tool" .) || exit 2
seed=${VERIF_SEED:-1}
case "$1" in
replay) "./$tool" replay -verif "$verif" -file "$(realpath "$2")" ;;
determinism) "./$tool" determinism -verif "$verif" -id "$2" -count "${3:-0}" -seed "$seed" ;;
setup)
	"./$tool" build -verif "$verif" -out "$verif/.build/setup" >/dev/null
	rc=$?
	rm -rf "$verif/.build/setup"
	(exit $rc)
	;;
*) "./$tool" check -verif "$verif" -id "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "$seed" -count "${VERIF_RUNS:-0}" ;;
esac

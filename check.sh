#!/bin/bash
# check.sh <property> [quick|thorough]   run one property's check against /repo
# check.sh replay <file>                 replay what a check reported
# check.sh build <dir>                   leave the built simulator in <dir> (for debugging)
#
# Everything is built afresh from /repo's working tree, in a scratch directory
# that is removed again.
set -u
verif="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
if [ -f /opt/vp/goenv.sh ]; then . /opt/vp/goenv.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=1

mode="${1:?property id, replay or build}"
keep=
if [ "$mode" = build ]; then
	scratch="${2:?directory}"; mkdir -p "$scratch"; keep=1
else
	scratch="$(mktemp -d "${TMPDIR:-/tmp}/verif-check.XXXXXX")" || exit 3
fi
child=
cleanup() {
	[ -n "$child" ] && kill "$child" 2>/dev/null
	[ -n "$keep" ] || rm -rf -- "$scratch"
}
trap cleanup EXIT
trap 'exit 3' INT TERM HUP

race=0
case "$mode" in
C02|build) race=1 ;;
replay) grep -q '"race": *true' "${2:?replay file}" && race=1 ;;
esac

(cd "$verif/tool" && go build -o "$scratch/itool" .) || { echo "cannot build the instrumenter" >&2; exit 3; }

# build LEVEL: copy and instrument the library, build the simulator
build() {
	rm -rf -- "$scratch/w" && mkdir -p "$scratch/w" || return 1
	"$scratch/itool" -repo "$repo" -out "$scratch/w" -sim "$verif/sim" -level "$1" || return 1
	(cd "$scratch/w" && go build -o "$scratch/sim" ./verifsim/harness) || return 1
	if [ $race = 1 ]; then
		(cd "$scratch/w" && go build -race -o "$scratch/simrace" ./verifsim/harness) || return 1
	fi
}
level=full
if ! build full >"$scratch/log" 2>&1; then
	cat "$scratch/log" >&2
	echo "the instrumented copy does not build; using an unchanged copy of the library" >&2
	level=plain
	build plain >&2 || { echo "the library and the simulator do not build together" >&2; exit 3; }
fi
[ "$mode" = build ] && exit 0

args=()
[ $race = 1 ] && args+=(-race "$scratch/simrace")
case "$mode" in
replay)
	"$scratch/sim" replay "${args[@]}" "$2" &
	;;
*)
	tier="${2:-${VERIF_TIER:-quick}}"
	"$scratch/sim" drive -prop "$mode" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$verif" -build "$level" "${args[@]}" ${VERIF_SCALE:+-scale "$VERIF_SCALE"} &
	;;
esac
child=$!
wait "$child"
rc=$?
child=
exit $rc

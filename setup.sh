#!/bin/bash
# Builds the instrumenter and the simulator once from the committed files, to
# see that they build; every check builds its own copy again.
set -e
verif="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d "${TMPDIR:-/tmp}/verif-setup.XXXXXX")"
trap 'rm -rf -- "$d"' EXIT
bash "$verif/check.sh" build "$d/b"
mkdir -p "$verif/evidence"
echo "setup: ok"

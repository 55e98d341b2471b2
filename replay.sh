#!/bin/bash
# usage: replay.sh FILE -- runs a reported counterexample against the compiled code again.
cd "$(dirname "$0")" || exit 2
[ -x bin/verifengine ] || ./setup.sh >&2 || exit 2
exec bin/verifengine -verif "$PWD" -replay "$1"

#!/bin/bash
# usage: check.sh PROPERTY quick|thorough -- decides one property against /repo's current tree.
cd "$(dirname "$0")" || exit 2
[ -x bin/verifengine ] || ./setup.sh >&2 || exit 2
exec bin/verifengine -verif "$PWD" -prop "$1" -tier "$2"

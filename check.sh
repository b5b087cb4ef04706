#!/bin/bash
# usage: check.sh ID quick|thorough - decides one property (see DESIGN.md)
here=$(cd "$(dirname "$0")" && pwd)
"$here/setup.sh" || exit 2
exec "$here/bin/vf" check "$1" -tier "${2:-quick}" -verif "$here" "${@:3}"

#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/stl2ps-demo.XXXXXX)
trap 'rm -rf -- "$W"' EXIT
bash "$H/kit/build.sh" "$W" || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$H/demo.py" "$W"

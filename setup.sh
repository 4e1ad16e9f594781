#!/bin/sh
# builds what the checks share from the committed files; every check rebuilds what changed
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
python3 - <<'P'
import sys; sys.path.insert(0, 'lib')
import build
print(build.serial_lib())
P

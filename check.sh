#!/bin/bash
# bash check.sh <property> [--tier quick|thorough] : decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 1
exec python3-vt -m cppvc.run "$@"

#!/bin/bash
# check.sh Cxx [quick|thorough]
cd "$(dirname "$0")" || exit 1
exec python3 tools/check.py "$@"

#!/bin/bash
# bash check.sh <property> [--quick|--thorough]
cd "$(dirname "$0")" || exit 2
export PATH="$HOME/.cargo/bin:$PATH"
exec python3 tools/vx/check.py "$@"

#!/bin/bash
# Builds the extraction front end; every check builds on demand what it does not find.
cd "$(dirname "$0")" || exit 2
python3 - <<'P'
import sys; sys.path.insert(0, "tools/vx")
import unit; unit.rx_bin(); print("rx built")
P

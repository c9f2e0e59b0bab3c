#!/bin/bash
# Builds the harness crates from the committed files and /repo's working tree (offline).
cd "$(dirname "$0")" || exit 1
mkdir -p work evidence
python3 - <<'P'
import sys; sys.path.insert(0, "lib")
import common, os
common.build()
if os.path.isdir(common.CONC):
    common.build(common.CONC, "conc")
P

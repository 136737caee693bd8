#!/bin/bash
# Builds the harness and the code under test once, so that the checks find a warm build cache.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, ".")
from vlib import Check, CLIS
c = Check("setup", "quick", 1)
c.build(CLIS, server=True)
c.build(race=True)
P

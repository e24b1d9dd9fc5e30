#!/bin/bash
# Builds the harness and TLC's operator overrides from the committed files and /repo.
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
from vlib import common
import glob, os
common.build(*sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob("harness/*/Cargo.toml")))
P

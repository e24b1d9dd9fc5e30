#!/bin/bash
# replay.sh FILE: runs a recorded violation again against /repo's working tree.
exec python3 "$(dirname "$0")/replay.py" "$@"

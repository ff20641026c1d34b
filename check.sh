#!/bin/bash
# check.sh Pxx [quick|thorough]: decide one property against /repo's working tree.
cd "$(dirname "$0")" && exec python3 lib/run.py "$@"

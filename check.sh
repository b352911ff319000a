#!/bin/bash
# check.sh ID [--thorough]
cd "$(dirname "$0")" && exec python3 tools/check.py "$@"

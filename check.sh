#!/bin/bash
# check.sh PROPERTY [--thorough]
cd "$(dirname "$0")" && exec python3-vt -B engine/check.py "$@"

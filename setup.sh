#!/bin/bash
# Warms the Go build cache (every check rebuilds the harness from /repo itself).
cd "$(dirname "$0")" || exit 1
exec python3 check.py --build-only

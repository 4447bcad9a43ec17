#!/bin/bash
# builds /repo's libraries once; every check rebuilds what it needs anyway
cd "$(dirname "$0")/.." && python3 lib/run.py --setup

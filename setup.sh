#!/bin/bash
# Offline; nothing to build: checks that the interpreter, Hypothesis and the repository load.
set -eu
cd "$(dirname "$0")"
/usr/bin/env python3 run.py --list >/dev/null
mkdir -p evidence replays
echo ok

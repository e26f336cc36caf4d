#!/bin/sh
# Nothing has to be installed; builds the framework and the first check so that a missing tool shows up early.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
exec ./check.py W10 --build-only

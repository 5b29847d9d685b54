#!/bin/sh
# Nothing to install: checks build what they need from /repo into .build/.
set -e
cd "$(dirname "$0")/.."
g++ --version | head -1
python3 -c 'import sys; assert sys.version_info >= (3, 8)'
mkdir -p .build evidence replays

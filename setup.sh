#!/bin/bash
# Builds the engine and the libraries; every check builds what is not there, and the code of the tree anew.
cd "$(dirname "$0")" && mkdir -p build evidence replays
exec python3 check.py --setup

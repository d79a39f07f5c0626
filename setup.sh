#!/bin/bash
# Nothing has to be installed: every check builds what it needs from /repo's working tree.
# This only checks that the tools are there.
set -e
cd "$(dirname "$0")"
cargo --version
cargo kani --version
python3 --version

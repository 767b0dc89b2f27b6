#!/bin/sh
# nothing to build: the checks are Python over clang's LLVM IR
set -e
cd "$(dirname "$0")"
mkdir -p evidence
command -v clang++ >/dev/null
python3-vt -c 'import numpy'

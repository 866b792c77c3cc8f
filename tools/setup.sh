#!/bin/bash
# nothing to install: check that the tools the checks use answer, and translate once
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
verus --version >/dev/null || exit 1
g++ --version >/dev/null || exit 1
python3 extract/translate.py --out build/setup.rs >/dev/null || exit 1
exit 0

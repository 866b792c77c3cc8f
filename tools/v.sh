#!/bin/bash
# translate and verify: v.sh [module...]
cd "$(dirname "$0")/.."
mkdir -p build
python3 extract/translate.py --out build/gen.rs || exit 1
a=(); for m in "$@"; do a+=(--verify-module "$m"); done
verus build/gen.rs --crate-type=bin "${a[@]}" ${VARGS:-} 2>&1 | awk '/^(note|warning)/{p=0} /^error/{p=1} /^verification results/{print;p=0} p'

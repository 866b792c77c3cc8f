#!/bin/bash
# slowest functions of a module: times.sh MODULE
cd "$(dirname "$0")/.."
verus build/gen.rs --crate-type=bin --verify-only-module $1 --time-expanded --output-json 2>/dev/null | python3 -c "
import json,sys
s=sys.stdin.read();j=json.loads(s[s.find('{'):])
l=[]
def w(o):
  if isinstance(o,dict):
    if 'function' in o and 'time' in o: l.append((o['time'],o['function']))
    for v in o.values(): w(v)
  if isinstance(o,list):
    for v in o: w(v)
w(j)
for x in sorted(l)[-10:]: print(*x)"

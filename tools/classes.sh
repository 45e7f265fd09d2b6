#!/bin/bash
# the classes counted in the evidence of a property
python3 -c "
import json,sys;e=json.load(open('$(dirname $0)/../evidence/$1.json'));c=e['coverage']
for k,v in sorted(c['classes'].items()): print(v,k)
print(c['evaluations'],c['distinct_nontrivial'],round(e['wall_s'],1))"

#!/bin/bash
# usage: runall.sh [ID...]: runs checks (4 at a time) and summarises
cd "$(dirname "$0")/.." || exit 1
ids=${*:-$(python3 -c "import json;print(' '.join(json.loads(l)['id'] for l in open('properties.jsonl')))")}
out=${OUT:-/tmp/runall}
mkdir -p $out
printf '%s\n' $ids | xargs -P ${JOBS:-6} -I{} sh -c "s=\$(date +%s); ./check.sh {} > $out/{}.log 2>&1; echo \"{} rc=\$? \$((\$(date +%s)-s))s \$(grep -v KNOWN $out/{}.log | head -1 | cut -c1-${W:-300})\""

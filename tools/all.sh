#!/bin/bash
# dev helper: run every check (or those given) in parallel, print the non-OK / undecided lines
cd /verif; C="$@"; [ -z "$C" ] && C=$(python3 -c "import sys;sys.path[:0]=['engine','rules','.'];import json;print(*[c['property'] if 'property' in c else c['property_id'] for c in json.load(open('MANIFEST.json'))['checks']])")
printf "%s\n" $C | xargs -P 8 -I{} sh -c './check {} 2>&1 | cut -c1-250 | grep -v "^OK.*undecided=0" | sed "s/^/{}: /" | head -4'

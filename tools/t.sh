#!/bin/bash
# developer helper: build and run a harness   t.sh name parts [run args]
n=$1; p=$2; shift 2; rm -rf /tmp/b/$n; $(dirname $0)/mk.sh $n $p 2>&1 | grep -E "error|undefined" | head -20; time /tmp/b/$n/run --scratch /tmp/b/$n/s "$@" --out /tmp/b/$n/out.json; python3 $(dirname $0)/show.py v </tmp/b/$n/out.json

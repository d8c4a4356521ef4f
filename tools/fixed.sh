#!/bin/bash
# fixed.sh PROP [COMMIT]: record a fix commit of /repo in known_findings.json
c=$(git -C /repo log -1 --format=%h ${2:-HEAD})
python3 "$(dirname "$0")/finding.py" fixed "$1" "$c" "$(git -C /repo log -1 --format=%s $c | sed 's/^fix: //')"

#!/bin/bash
# fixcommit.sh PID "commit subject" "what failed": commit the repair in /repo and record it
git -C /repo commit -qam "fix: $2" && h=$(git -C /repo log -1 --format=%h) && echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt && tail -1 /verif/known_findings.txt

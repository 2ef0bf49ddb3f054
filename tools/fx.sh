#!/bin/bash
# fx.sh PROP "commit message without fix:" "what failed": commits a repair and records it.
set -e
git -C ${FXREPO:-/tmp/repo2} commit -qam "fix: $2"
h=$(git -C ${FXREPO:-/tmp/repo2} log -1 --format=%h)
echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt
tail -1 /verif/known_findings.txt

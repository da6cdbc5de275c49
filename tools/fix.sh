#!/bin/bash
# fix.sh PROPERTY "message" : commits the working tree of /repo/frm as a fix and records it.
set -e
git -C /repo checkout -q -- tests
git -C /repo commit -qm "fix: $2" -- frm
c=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$1 $c $2" >> /verif/KNOWN_FINDINGS.txt
echo $c

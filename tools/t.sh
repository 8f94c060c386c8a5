#!/bin/bash
# tools/t.sh Module cfg... : run TLC on models
cd /verif/spec; m=$1; shift
for f in "$@"; do echo "== $f"; timeout 900 java -XX:+UseParallelGC -Xss16m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -noGenerateSpecTE -deadlock -metadir /tmp/w/tlcm -config $f $m.tla > /tmp/w/t.out 2>&1;  egrep "Error:|violated|distinct|No error|Finished in|ttempted|line " /tmp/w/t.out | head -${LN:-5}; done

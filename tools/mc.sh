#!/bin/bash
# mc.sh MODULE CFG [workers]
cd /verif/specs; timeout ${T:-900} java -Xmx${XMX:-6g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers ${3:-4} -metadir /tmp/tlcm.$$ -config $2 $1 2>&1 | egrep -v '^(Parsing|Semantic|Linting)' | tail -${TAIL:-12}; rm -rf /tmp/tlcm.$$

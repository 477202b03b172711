#!/bin/bash
# tv.sh MODULE CFG FILE PROP: validate one trace file (development)
cd /verif/specs; ZV_TRACE=$3 ZV_PROP=$4 java -XX:+UseSerialGC -Xmx${XMX:-3g} -Xss16m ${JOPT} -Dtlc2.tool.queue.IStateQueue=StateDeque -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir /tmp/tvmeta -workers 1 -config $2 $1 2>&1 | egrep -v '^(Parsing|Semantic|Linting|TLC2|Running|Starting|Progress)' | cut -c1-${COLS:-400} | tail -${TAIL:-15}
rm -rf /tmp/tvmeta

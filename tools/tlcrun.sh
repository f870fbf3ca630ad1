#!/bin/bash
# tlcrun.sh MODULE CONFIG: one design model, by hand
cd "$(dirname "$0")/../spec"
mkdir -p /tmp/tlc-run.$$; exec java -Djava.io.tmpdir=/tmp/tlc-run.$$ -XX:+UseParallelGC -Xmx6g -Xss16m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 6 -metadir /tmp/tlc-run.$$ -noGenerateSpecTE -config $2.cfg $1.tla | grep -v '^Parsing\|^Semantic\|^Linting\|satisfiab\|fingerprint\|calculated\|Estimates'

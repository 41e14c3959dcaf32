#!/bin/bash
# tools/tlc.sh MODULE [tlc arguments]: runs TLC on specs/MODULE with the overrides
cd /verif/specs && M=$1 && shift
D=$(mktemp -d /tmp/tlc.XXXXXX)
java -Xmx8g -Xss64m -XX:+UseParallelGC -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.TurtlsOverrides \
  -cp /verif/build/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  tlc2.TLC -metadir $D "$@" $M
R=$?; rm -rf "$D"; exit $R

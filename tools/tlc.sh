#!/bin/sh
exec java -DTLA-Library=/verif/spec -Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8 -XX:+UseSerialGC -Xmx2g -Xss64m -XX:TieredStopAtLevel=1 -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"

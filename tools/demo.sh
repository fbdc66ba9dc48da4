#!/bin/bash
# Builds demo.cc against the tree just built and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build/cpp; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
S=$R/src
I=""; for d in utils value expr intfc exec xml-parser app-framework interfaces/UdpAdapter interfaces/Sockets interfaces/LuvListener apps/StandAloneSimulator; do I="$I -I$S/$d"; done
L=""; for l in xml-parser:PlexilXmlParser exec:PlexilExec intfc:PlexilIntfc expr:PlexilExpr value:PlexilValue utils:PlexilUtils $LIBS; do
  L="$L -L$B/src/${l%%:*} -l${l##*:} -Wl,-rpath,$B/src/${l%%:*}"; done
g++ -std=c++14 -O1 -w -DHAVE_CONFIG_H -include cstdint -include cstring -include plexil-config.h -I$B $I "$D/demo.cc" ${SRCS//@/$S/} -o "$T/demo" $L -lpugixml -lpthread || exit 3
cd "$T" && timeout 60 ./demo

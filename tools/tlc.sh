#!/bin/bash
# tlc.sh MODULE CFG [TLC options]: TLC with the big-integer overrides, run in the directory of the caller
V="$(cd "$(dirname "$0")/.." && pwd)"
J=/opt/veriftools/tla
MOD="$1"; CFG="$2"; shift 2
META=$(mktemp -d /tmp/tlcmeta.XXXXXX)
java -XX:+UseParallelGC -Xmx${TLC_XMX:-6g} -Xss64m ${TLC_JAVA:-} -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vtlc.Overrides -DTLA-Library="$V/spec" \
  -cp "$J/tla2tools.jar:$J/CommunityModules-deps.jar:${CCM_BUILD:-$V/build}/java" tlc2.TLC -metadir "$META" -config "$CFG" "$@" "$MOD"
rc=$?
rm -rf "$META"
exit $rc

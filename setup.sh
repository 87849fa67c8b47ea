#!/bin/bash
# builds the harness against /repo's working tree and parses the specification
cd "$(dirname "$0")" || exit 2
. ./env.sh
(cd harness && cargo build --offline --quiet) || exit 2
T=$PWD/harness/target
(cd xharness && cargo build --offline --quiet --target-dir "$T" && "$T/debug/xgen" code "$T/xcode" > /dev/null &&
 cd run && XGEN_DIR="$T/xcode" cargo build --offline --quiet --target-dir "$T") || echo "generated code not built"
mkdir -p work evidence
cd spec || exit 2
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /dev/null 2>../work/sany.err || { echo "specification $m does not parse"; exit 2; }
done
exit 0

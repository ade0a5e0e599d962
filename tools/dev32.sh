#!/bin/bash
# dev32.sh PROP|all [RULE]: the rules at f32 (see check.py, analyse)
rm -rf /tmp/sm.a32; mkdir -p /tmp/sm.a32/src; cp /verif/anchors/Cargo.* /tmp/sm.a32/; cp /verif/anchors/src/*.rs /tmp/sm.a32/src/; sed -i 's/\bf64\b/f32/g' /tmp/sm.a32/src/*.rs
SM_WIDTH=32 DEV_ANCHORS=/tmp/sm.a32 exec /verif/tools/dev.sh "$@"

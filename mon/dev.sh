#!/bin/bash
. /opt/vp/common.sh >/dev/null; export CARGO_TARGET_DIR=/verif/mon/target; cd /verif/mon; cargo build --offline --message-format short "$@" 2>&1 | grep -E "error|Finished" | head -60

#!/bin/bash
# builds the IR and the replay driver once, so that the toolchain caches are warm
cd "$(dirname "$0")" || exit 1
mkdir -p evidence .build
python3-vt -c "
import sys; sys.path.insert(0,'vc')
import build; build.ir(); build.replay_bin()"

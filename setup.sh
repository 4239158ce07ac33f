#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
cd "$(dirname "$0")/mc" && . /opt/vp/env.sh && go vet ./core ./sched ./explore && go build -o /dev/null ./instr && echo ready

#!/bin/bash
# run.sh ID [quick|thorough]: rebuilds from /repo's working tree and decides one property.
id=${1:?usage: run.sh ID [tier]}
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_ROOT=$here
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vmc.XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
deps=
case $id in
C21 | C22) bin=raftcheck pk="pkg/queue pkg/raft pkg/badger-store" deps="github.com/hashicorp/raft github.com/bwmarrin/snowflake" ;;
C18 | C19 | C20 | C28) bin=netcheck pk="pkg/queue pkg/raft pkg/badger-store pkg/grpc pkg/http" deps="github.com/hashicorp/raft github.com/bwmarrin/snowflake" ;;
C23 | C24) bin=clustercheck pk="pkg/cluster" ;;
C26 | C30) bin=configcheck pk="" ;;
*) bin=qcheck pk="pkg/queue pkg/raft pkg/badger-store" ;;
esac
cd "$here/mc" || exit 3
ov=()
if [ -n "$pk" ]; then
    go build -o "$tmp/instr" ./instr || exit 3
    fl=(); if [ "$id" = C14 ] || [ "$id" = C15 ] || [ "$id" = C17 ] || [ $bin = netcheck ]; then fl=(-stmts); fi
    mkdir "$tmp/ov" "$tmp/dep"; "$tmp/instr" "${fl[@]}" -repo /repo -out "$tmp/ov" -depout "$tmp/dep" $pk $(for d in $deps; do echo "dep:$d"; done) || exit 3
    ov=(-overlay "$tmp/ov/overlay.json")
    if [ -n "$deps" ]; then # instrumented copies of these libraries take the place of the originals
        cp go.mod go.sum "$tmp/ov/"
        for d in $deps; do echo "replace $d => $tmp/dep/$d" >>"$tmp/ov/go.mod"; done
        ov+=(-modfile "$tmp/ov/go.mod")
    fi
    if [ "$id" = C17 ]; then # the same check with the race monitor, which only the code under test reports to
        mkdir "$tmp/ovr"; "$tmp/instr" -repo /repo -out "$tmp/ovr" $pk || exit 3
        go build -race -gcflags=vmc/sched=-race=false -gcflags=vmc/v/vsync=-race=false -gcflags=vmc/v/vtime=-race=false -gcflags=vmc/explore=-race=false \
            -overlay "$tmp/ovr/overlay.json" -o "$tmp/racecheck" ./cmd/$bin || exit 3
        export VERIF_RACE_BIN=$tmp/racecheck VERIF_RACE_LOG=$tmp/race
        export GORACE="log_path=$tmp/race halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
    fi
fi
if [ $bin = configcheck ]; then
    ./server_build.sh "$tmp" || exit 3
    export VERIF_SERVER=$tmp/server TMPDIR=$tmp
fi
go build "${ov[@]}" -o "$tmp/$bin" ./cmd/$bin || exit 3
"$tmp/$bin" "$id" "$tier"
rc=$?
exit $rc

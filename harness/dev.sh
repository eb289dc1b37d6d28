#!/bin/bash
# dev.sh real|tiny PKG [go test args]: run the tests of a harness package against $VERIF_REPO (default /repo)
cd "$(dirname "$0")"
. ./env.sh "$1"; p=$2; shift 2
go test $GOARGS "./$p" -count=1 -vet=off "$@"

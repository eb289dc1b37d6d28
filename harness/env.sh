# env.sh real|tiny: sets what go needs to build the harness against the repository
REPO=${VERIF_REPO:-/repo}; H=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
W=${VERIF_WORK:-$(mktemp -d /tmp/verifwork.XXXXXX)}; mkdir -p "$W"
src=go; [ "$1" = tiny ] && src=tiny
sed -e "s#=> \.\./stubs#=> $H/../stubs#" -e "s#=> /repo#=> $REPO#" "$H/$src.mod" > "$W/$1.mod"; cp "$H/$src.sum" "$W/$1.sum"
python3 "$H/../tools/overlay.py" "$REPO" "$W" "$W/overlay.json"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod CGO_ENABLED=1
GOARGS="-modfile=$W/$1.mod -overlay=$W/overlay.json -buildvcs=false"
[ "$1" = tiny ] && GOARGS="$GOARGS -tags=tiny"
true

#!/bin/bash
# exit 0 when the property holds on the code in the current directory, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
cp "$D/main.go" "$D/lib.go" "$D/go.sum" "$T/"
cat > "$T/go.mod" <<M
module demo

go 1.26

require (
	github.com/ldsec/lattigo/v2 v2.3.0
	mk-lattigo v0.0.0
)

require (
	golang.org/x/crypto v0.0.0-20210921155107-089bfa567519 // indirect
	golang.org/x/sys v0.0.0-20211007075335-d3039528d8ac // indirect
)

replace mk-lattigo => $R
M
cd "$T" && timeout 280 go run .

#!/bin/sh
# Builds the engine from the committed sources (offline).
cd "$(dirname "$0")/engine" || exit 2
mkdir -p ../.cache
sum=$(cat ./*.go go.mod go.sum | sha256sum | cut -c1-16)
[ -x ../.cache/eng ] && [ "$(cat ../.cache/eng.sum 2>/dev/null)" = "$sum" ] && exit 0
GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOSUMDB=off GOWORK=off go build -o ../.cache/eng.$$ . || exit 2
mv ../.cache/eng.$$ ../.cache/eng
echo "$sum" > ../.cache/eng.sum

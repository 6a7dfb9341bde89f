#!/bin/bash
# Builds the verifier from the committed source, offline. Also sourced by check.sh.
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
_d="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$_d/bin" "$_d/work" "$_d/evidence"
if [ ! -x "$_d/bin/govc" ] || [ -n "$(find "$_d/govc" -newer "$_d/bin/govc" -name '*.go' -print -quit)" ]; then
	(cd "$_d/govc" && go build -o ../bin/govc.new . && mv ../bin/govc.new ../bin/govc) || { echo "cannot build govc"; [ "${BASH_SOURCE[0]}" = "$0" ] && exit 1 || return 1; }
fi
:

#!/bin/bash
# Checks that the tool chain works offline and that every monitor builds.
set -u
cd "$(dirname "$0")" || exit 9
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p evidence
cd harness && exec go vet -stdversion=false ./...

#!/bin/bash
# Warm the build cache; every check also builds for itself.
cd "$(dirname "$0")/harness" || exit 1
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOFLAGS=
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
go build -mod=readonly -overlay overlay.json ./kit ./ref || exit 1
go version

# sourced by the checks: the Go toolchain, offline
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOENV=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=readonly
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0

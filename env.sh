export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off

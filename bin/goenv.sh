# Go settings shared by every script here: offline, local toolchain only.
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export GOFLAGS="-mod=mod -buildvcs=false"
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
export HOME="${HOME:-/root}"
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
unset GOROOT GOTRACEBACK GODEBUG GOGC GOMEMLIMIT 2>/dev/null || true

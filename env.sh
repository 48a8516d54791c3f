# Build settings: everything offline, modules from the tree and the local cache.
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
export VERIF_DIR="$(pwd)"

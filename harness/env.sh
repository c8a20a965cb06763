# go environment of the harness (GOPATH mode, offline, own build cache)
export HOME=/root GOPATH=/verif/harness GO111MODULE=off GOFLAGS= GOTOOLCHAIN=local GOENV=off GOPROXY=off GOWORK=off
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin GOCACHE=/verif/.cache/gocache
unset GOROOT NEO4J_BOLT ENSURE_NEO4J_BOLT RECORD_OUTPUT BOLT_DRIVER_LOG

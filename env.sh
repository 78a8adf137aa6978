# toolchain and cache settings shared by every script here
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off CGO_ENABLED=0 GOSUMDB=off
mkdir -p "$ROOT/.work"
export GOCACHE=${VERIF_GOCACHE:-$ROOT/.work/gocache}

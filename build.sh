# Sourced: builds /repo's working tree into the explorer binary. Sets MC_BIN.
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GO111MODULE=on GOWORK=off GOPROXY=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
for f in go.mod go.sum; do
    [ -e /repo/$f ] || cp /opt/vp/mod/$f /repo/$f
done
B="$(mktemp -d /tmp/ripsrc-mc-bin.XXXXXX)"
trap 'rm -rf "$B"' EXIT
MC_BIN="$B/mc"
export MC_BIN
( cd "$V/mc" && go build -tags no_license -o "$MC_BIN" ./cmd/mc )
if [ "${ID:-}" = C16 ]; then
    # with license detection
    MC_LIC="$B/lic"
    export MC_LIC
    ( cd "$V/mc" && go build -o "$MC_LIC" ./cmd/lic )
fi
if [ "${ID:-}" = C17 ]; then
    . "$V/schedbuild.sh"
fi
if [ "${ID:-}" = C18 ] || [ "${ID:-}" = C22 ] || [ "${ID:-}" = C23 ]; then
    mkdir "$B/git"
    MC_GIT="$B/git/git"
    export MC_GIT
    gcc -O2 -w -o "$MC_GIT" "$V/mc/cmd/fakegit/git.c" || { echo "build failed"; exit 2; }
fi
if [ "${ID:-}" = C19 ]; then
    MC_CLI="$B/cli"
    export MC_CLI
    ( cd "$V/mc" && go build -tags no_license -o "$MC_CLI" github.com/pinpt/ripsrc ) || { echo "build failed"; exit 2; }
fi

# Sourced by demo.sh: scratch directory, git helpers, show.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
T="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'chmod -R u+w "$T" 2>/dev/null; rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME="$T" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GO111MODULE=on GOWORK=off GOPROXY=off GOFLAGS=-mod=mod
export GIT_CONFIG_NOSYSTEM=1 GIT_AUTHOR_NAME=A GIT_AUTHOR_EMAIL=a@example.com GIT_COMMITTER_NAME=C GIT_COMMITTER_EMAIL=c@example.com
printf '{"Replace":{"%s/zz_show/main.go":"%s/show.go"}}' "$REPO" "$HERE" >"$T/overlay.json"
(cd "$REPO" && go build ${RACE:+-race} -tags no_license -overlay "$T/overlay.json" -o "$T/show" ./zz_show) || { echo "show does not build"; exit 1; }
show() { timeout 100 "$T/show" "$@"; }
R="$T/repo"
mkdir "$R"
g() { git -C "$R" "$@"; }
g init -q -b master .
N=0
# commit MESSAGE: commits all of the working tree at the next minute
tick() { N=$((N+1)); export GIT_AUTHOR_DATE="$((1500000000 + N*60)) +0000" GIT_COMMITTER_DATE="$((1500000000 + N*60)) +0000"; }
commit() { tick; g add -A; g commit -q --allow-empty -m "$1"; g rev-parse HEAD; }
check() { # check WHAT GOT WANTED
	if [ "$2" != "$3" ]; then echo "$1:"; diff <(echo "$2") <(echo "$3"); exit 1; fi
}

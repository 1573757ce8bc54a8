# Sourced after build.sh: builds the scheduler's explorer from /repo's working
# tree. Sets MC_SCHED. Uses B and V.
(
    M=$B/sched/github.com/pinpt/ripsrc
    mkdir -p "$M/zzmain" || exit 2
    cd "$V/mc" || exit 2
    go build -o "$B/rewrite" ./cmd/rewrite || exit 2
    "$B/rewrite" "$B/sched" github.com/pinpt/ripsrc,verif/mc/schedscen github.com/pinpt/ripsrc/ripsrc/... verif/mc/schedscen || exit 2
    cp -r sched "$M/zzsched" && cp -r schedrun "$M/zzrun" && cp -r "$B/sched/verif/mc/schedscen" "$M/zzscen" || exit 2
    cat > "$M/zzmain/main.go" <<'EOF'
package main

import (
	"encoding/json"

	scen "github.com/pinpt/ripsrc/zzscen"
	run "github.com/pinpt/ripsrc/zzrun"
)

func main() {
	run.Main(func(b json.RawMessage) []string {
		var a scen.Args
		if err := json.Unmarshal(b, &a); err != nil {
			panic(err)
		}
		return scen.Run(a)
	})
}
EOF
    find "$M" -name '*.go' -exec sed -i 's#verif/mc/sched/execshim#github.com/pinpt/ripsrc/zzsched/execshim#; s#verif/mc/sched/syncshim#github.com/pinpt/ripsrc/zzsched/syncshim#; s#"verif/mc/sched"#"github.com/pinpt/ripsrc/zzsched"#; s#"verif/mc/sched#"github.com/pinpt/ripsrc/zzsched#' {} +
    sed 's/^go 1\..*/go 1.21/' /repo/go.mod > "$M/go.mod" && cp /repo/go.sum "$M/go.sum" || exit 2
    cd "$M" && CGO_ENABLED=1 go build -race -tags no_license -o "$B/schedmc" ./zzmain
) || { echo "build failed"; exit 2; }
MC_SCHED="$B/schedmc"
export MC_SCHED

package props

import (
	"fmt"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"

	"verif/mc/eng"
)

type writeLog struct{ w []string }

func (s *writeLog) Write(b []byte) (int, error) { s.w = append(s.w, string(b)); return len(b), nil }

// logLinesSpace interleaves the writes of log messages with those of results
// that go to the same file, in every way.
func logLinesSpace() eng.Space {
	type call struct {
		debug bool
		msg   string
		args  []interface{}
	}
	var calls []call
	for _, d := range []bool{false, true} {
		for _, m := range []string{"", "m", "100%d %s"} {
			for _, a := range [][]interface{}{nil, {"k", 1}, {"k", "v", "e", fmt.Errorf("e%%d")}, {"odd"}, {1, 2}} {
				calls = append(calls, call{d, m, a})
			}
		}
	}
	n := len(calls)
	return eng.Space{Name: "log-lines", Rule: "two log messages (level, text, arguments; wrong arguments) and two results to the same file, their writes interleaved in every way: each result is a line of its own", Batch: 100,
		Size: func() int { return n * n }, Desc: func(i int) string { return fmt.Sprintf("%+v %+v", calls[i/n], calls[i%n]) },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				rec := &writeLog{}
				l := logger.NewDefaultLogger(rec)
				for _, k := range []call{calls[u/n], calls[u%n]} {
					if k.debug {
						l.Debug(k.msg, k.args...)
					} else {
						l.Info(k.msg, k.args...)
					}
				}
				res := []string{"result 1\n", "result 2\n"}
				for i := 0; i <= len(rec.w); i++ {
					for j := i; j <= len(rec.w); j++ {
						s := strings.Join(rec.w[:i], "") + res[0] + strings.Join(rec.w[i:j], "") + res[1] + strings.Join(rec.w[j:], "")
						c.Add("transitions", 1)
						c.State(s)
						ls := strings.Split(s, "\n")
						n := 0
						for _, l := range ls {
							if l == "result 1" || l == "result 2" {
								n++
							}
						}
						if n != 2 || ls[len(ls)-1] != "" {
							c.Fail(u, "with the results after %d and %d of the writes the output is %q", i, j, s)
							return nil
						}
					}
				}
			}
			return nil
		}}
}

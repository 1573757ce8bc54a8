// Package schedrun explores the schedules of a scenario.
package schedrun

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"strings"

	"verif/mc/sched"
	"verif/mc/sched/execshim"
)

// Job is what to explore.
type Job struct {
	Args    json.RawMessage
	Devs    int // deviations from the policy
	Robin   bool
	MapDesc bool
	Part    int // only schedules whose first deviation is at a step of this class
	Parts   int
	Chunk   int
	Want    []string
	NoLeak  bool
	Plan    []sched.Dev // run just this one
}

// Report is what came of it.
type Report struct {
	Schedules int
	Steps     int
	MaxSteps  int
	Base      int // steps of the policy's schedule
	Fail      string
	Plan      []sched.Dev
}

// Explore runs the job. run is the scenario, built for the scheduler.
func Explore(j Job, run func(args json.RawMessage) []string) (rep Report) {
	exec.Chunk = j.Chunk
	conf := sched.Config{Robin: j.Robin, MapDesc: j.MapDesc}
	one := func(plan []sched.Dev) sched.Outcome {
		var got []string
		o := sched.Run(func() { got = run(j.Args) }, plan, conf)
		rep.Schedules++
		if j.Want == nil {
			j.Want = got
		}
		rep.Steps += o.Steps
		rep.MaxSteps = max(rep.MaxSteps, o.Steps)
		switch {
		case o.Panic != nil:
			rep.Fail = fmt.Sprintf("panic: %v\n%s", o.Panic, strings.Join(o.Blocked, "\n"))
		case o.Long:
			rep.Fail = "does not end"
		case o.Deadlock:
			rep.Fail = "deadlock: " + strings.Join(o.Blocked, "; ")
		case o.Leak:
			rep.Fail = "the calls returned and these keep waiting: " + strings.Join(o.Blocked, "; ")
		case !slices.Equal(got, j.Want):
			rep.Fail = "different results: " + diff(got, j.Want)
		}
		if rep.Fail != "" {
			rep.Plan = plan
			fmt.Fprintf(os.Stderr, "plan %v\n", plan)
		}
		return o
	}
	if j.Plan != nil {
		one(j.Plan)
		return
	}
	var rec func(plan []sched.Dev, o sched.Outcome, from int)
	rec = func(plan []sched.Dev, o sched.Outcome, from int) {
		if len(plan) >= j.Devs {
			return
		}
		for s := from; s < len(o.Alts) && rep.Fail == ""; s++ {
			if len(plan) == 0 && s%j.Parts != j.Part {
				continue
			}
			for c := 1; c < int(o.Alts[s]) && rep.Fail == ""; c++ {
				p := append(slices.Clone(plan), sched.Dev{Step: s, Choice: c})
				x := one(p)
				if rep.Fail == "" {
					rec(p, x, s+1)
				}
			}
		}
	}
	one(nil) // fills the command cache
	if rep.Fail != "" {
		return
	}
	o := one(nil)
	rep.Base = o.Steps
	if rep.Fail == "" {
		rec(nil, o, 0)
	}
	return
}

func diff(a, b []string) string {
	for i := range a {
		if i < len(b) && a[i] == b[i] {
			continue
		}
		x, y := strings.Split(a[i], "\n"), []string{}
		if i < len(b) {
			y = strings.Split(b[i], "\n")
		}
		for k := range x {
			if k >= len(y) || x[k] != y[k] {
				w := "nothing"
				if k < len(y) {
					w = y[k]
				}
				return fmt.Sprintf("call %d, line %d: %.200q instead of %.200q", i, k, x[k], w)
			}
		}
		return fmt.Sprintf("call %d: %d lines instead of %d", i, len(x), len(y))
	}
	return "fewer"
}

// Main reads jobs from standard input, one per line, and prints a report for
// each. It ends after a failure, which may leave anything behind.
func Main(run func(args json.RawMessage) []string) {
	in := bufio.NewReader(os.Stdin)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j Job
		if err := json.Unmarshal(l, &j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r := Explore(j, run)
		b, _ := json.Marshal(r)
		fmt.Println("REPORT " + string(b))
		if r.Fail != "" {
			return
		}
	}
}

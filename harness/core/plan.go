package core

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/sched"
)

// Free is the plan of race-detector runs: real parallelism.
var Free = sched.Plan{Mode: "free"}

// Plan draws an interleaving.
func Plan(t *rapid.T) sched.Plan {
	switch rapid.IntRange(0, 9).Draw(t, "plan") {
	case 0, 1, 2, 3:
		n := rapid.IntRange(0, 6).Draw(t, "preemptions")
		p := sched.Plan{Mode: "pre"}
		for i := 0; i < n; i++ {
			max := 12
			if rapid.IntRange(0, 2).Draw(t, "far") == 2 {
				max = 90
			}
			p.Pre = append(p.Pre, sched.Switch{
				Gap:  rapid.IntRange(0, max).Draw(t, "gap"),
				Pick: rapid.IntRange(0, 3).Draw(t, "to"),
			})
		}
		return p
	case 4, 5, 6:
		return sched.Plan{Mode: "pct", Seed: rapid.Uint64().Draw(t, "seed"), D: rapid.IntRange(1, 6).Draw(t, "depth")}
	default:
		return sched.Plan{Mode: "walk", Seed: rapid.Uint64().Draw(t, "seed")}
	}
}

// Concurrent runs body under the plan and turns what no case may do - a
// deadlock, a stray panic, goroutines left behind - into an error. It returns
// false when the execution could not be decided.
func Concurrent(t *testing.T, plan sched.Plan, r *Rec, body func(c *sched.Ctl)) (decided bool, err error) {
	res := sched.Run(t, plan, body)
	if len(res.Panics) > 0 {
		return true, fmt.Errorf("a call panicked: %s", res.Panics[0])
	}
	if res.Deadlock != "" {
		return true, fmt.Errorf("blocked forever: %s", res.Deadlock)
	}
	if res.Leaked {
		return true, fmt.Errorf("goroutines stay blocked after everything has finished")
	}
	if plan.Mode != "free" {
		r.LabelIf(!res.Instr, "uninstrumented")
		switch {
		case res.Switches <= 4:
			r.Label("switches<=4")
		case res.Switches <= 16:
			r.Label("switches<=16")
		default:
			r.Label("switches>16")
		}
	}
	return true, nil
}

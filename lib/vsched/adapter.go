package vsched

import (
	"fmt"

	"github.com/ftl/sdrainer/zzverif/mcrun"
)

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Check explores body as the job of c.
func Check(c *mcrun.Ctx, cfg Config, body func()) {
	if c.Replay != nil {
		trace, v := Replay(cfg, c.Replay.Choices, c.Replay.Promoted, body)
		for _, l := range trace {
			fmt.Println(l)
		}
		if v != nil {
			c.Result.Violations = append(c.Result.Violations, mcrun.Violation{Signature: v.Signature(), Choices: c.Replay.Choices})
		}
		return
	}
	cfg.Deadline = c.Deadline
	cfg.Known = func(v *Violation) bool { return c.IsKnown(v.Signature()) }
	OnStuck = func(choices []int, stack string) {
		c.Result.Violations = append(c.Result.Violations, mcrun.Violation{Signature: "livelock: endless loop without a visible operation", Detail: stack, Choices: choices, Promoted: keysOf(promotedKeys)})
		c.Finish()
	}
	st, v, err := Explore(cfg, body)
	r := &c.Result
	r.States += st.States
	r.Transitions += st.Steps
	r.Traces += st.Complete
	r.Executions += st.Executions
	if !st.Exhaustive {
		r.Exhaustive = false
	}
	if st.BoundHit {
		r.Bound = fmt.Sprintf("all schedules with at most %d preemptions", st.PreemptionBound)
	} else if st.Exhaustive {
		r.Bound = "all schedules"
	} else if st.PreemptionBound < 0 {
		r.Bound = "stopped by the time limit, in part"
	} else {
		r.Bound = fmt.Sprintf("all schedules with at most %d preemptions, more in part", st.PreemptionBound)
	}
	if st.Unconfirmed > 0 {
		r.Exhaustive = false
		r.Bound += fmt.Sprintf("; %d violations did not show up again, the last one: %s", st.Unconfirmed, st.LastUnconfirmed)
	}
	for k, n := range st.Outcomes {
		if r.Outcomes == nil {
			r.Outcomes = map[string]int{}
		}
		r.Outcomes[k] += n
	}
	for k, n := range st.KnownHits {
		if r.Known == nil {
			r.Known = map[string]int{}
		}
		r.Known[k] += n
	}
	r.Samples = append(r.Samples, st.Samples...)
	c.Extra("max_threads", st.MaxThreads)
	c.Extra("max_choice_points", st.MaxPoints)
	c.Extra("racy_variables", st.Promoted)
	if err != nil {
		r.Error = err.Error()
		r.Exhaustive = false
		return
	}
	if v != nil {
		r.Violations = append(r.Violations, mcrun.Violation{Signature: v.Signature(), Detail: fmt.Sprintf("%d preemptions", v.Preemptions), Choices: v.Choices, Promoted: v.Promoted, Trace: v.Trace})
	}
}

package vsched

import (
	"fmt"
	"sort"
	"time"
)

// Explorer enumerates all executions of a body within the bounds of a Config.
type Explorer struct {
	cfg    *Config
	stack  []point
	seen   map[uint64]uint16
	bound  [2]int
	stat   Stats
	hitPre bool
	hitFlt bool
}

const maxSeen = 40_000_000

func (e *Explorer) visit(x *exec, fp uint64) bool {
	c := uint16(x.cost[0])<<8 | uint16(x.cost[1])
	if old, ok := e.seen[fp]; ok {
		if old>>8 <= c>>8 && old&255 <= c&255 {
			return e.cfg.NoCache
		}
		if old>>8 < c>>8 || old&255 < c&255 {
			return true // incomparable
		}
	} else {
		e.stat.States++
	}
	if len(e.seen) < maxSeen {
		e.seen[fp] = c
	}
	return true
}

type fatalError struct{ msg string }

func (f fatalError) Error() string { return f.msg }

// Explore runs body under all schedules within the bounds.
func Explore(cfg Config, body func()) (Stats, *Violation, error) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	total := Stats{Outcomes: map[string]int{}, KnownHits: map[string]int{}}
	promoted = map[int]bool{}
	promotedKeys = map[string]bool{}
	maxP := cfg.Preemptions
	if maxP < 0 {
		maxP = 250
	}
	bounds := []int{0}
	if maxP == 1 {
		bounds = []int{0, 1}
	} else if maxP > 1 {
		bounds = []int{1, maxP}
	}
	for round := 0; ; round++ {
		restart := false
		total.PreemptionBound = -1 // nothing is complete yet
		for _, b := range bounds {
			e := &Explorer{cfg: &cfg, seen: map[uint64]uint16{}, bound: [2]int{b, cfg.Faults}}
			viol, racy, timeout, err := e.dfs(body)
			total.Executions += e.stat.Executions
			total.Complete += e.stat.Complete
			total.Validated += e.stat.Complete
			total.Steps += e.stat.Steps
			total.States = max(total.States, e.stat.States)
			total.MaxPoints = max(total.MaxPoints, e.stat.MaxPoints)
			total.MaxThreads = max(total.MaxThreads, e.stat.MaxThreads)
			total.Horizon += e.stat.Horizon
			total.Unconfirmed += e.stat.Unconfirmed
			if e.stat.LastUnconfirmed != "" {
				total.LastUnconfirmed = e.stat.LastUnconfirmed
			}
			for k, n := range e.stat.Outcomes {
				total.Outcomes[k] += n
			}
			for k, n := range e.stat.KnownHits {
				total.KnownHits[k] += n
			}
			if len(total.Samples) < 3 {
				total.Samples = append(total.Samples, e.stat.Samples...)
			}
			total.Promoted = keysOf(promotedKeys)
			if err != nil {
				return total, nil, err
			}
			if viol != nil {
				viol.Promoted = keysOf(promotedKeys)
				return total, viol, nil
			}
			if timeout {
				return total, nil, nil
			}
			fresh := false
			for k := range racy {
				if !promotedKeys[k] && !cfg.NoPromote {
					promote(k)
					fresh = true
				}
			}
			if fresh {
				restart = true
				break
			}
			total.PreemptionBound = b
			total.BoundHit = e.hitPre
			if !e.hitPre {
				break
			}
		}
		if !restart {
			total.Exhaustive = true
			total.Promoted = keysOf(promotedKeys)
			return total, nil, nil
		}
		if round > 60 {
			return total, nil, fatalError{"no fixpoint of racy variables"}
		}
	}
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (e *Explorer) dfs(body func()) (viol *Violation, racy map[string]string, timeout bool, err error) {
	racy = map[string]string{}
	e.stat.KnownHits = map[string]int{}
	prefix := []int{}
	for {
		x := runExec(e.cfg, e, prefix, body, false)
		e.stat.Executions++
		e.stat.Steps += x.steps
		e.stat.MaxPoints = max(e.stat.MaxPoints, x.stat.MaxPoints)
		e.stat.MaxThreads = max(e.stat.MaxThreads, x.stat.MaxThreads)
		e.stat.Horizon += x.stat.Horizon
		if x.diverged != "" {
			return nil, racy, false, fatalError{x.diverged}
		}
		for k, v := range x.racy {
			racy[k] = v
			if kind, ok := harmful(v); ok && x.viol == nil && (e.cfg.RaceViolation == nil || e.cfg.RaceViolation(k)) {
				x.viol = &Violation{Kind: "fatal", Message: kind + ": " + k}
			}
		}
		if x.viol == nil && !x.pruned {
			e.stat.Complete++
			if e.stat.Outcomes == nil {
				e.stat.Outcomes = map[string]int{}
			}
			for k, n := range x.stat.Outcomes {
				e.stat.Outcomes[k] += n
			}
		}
		if len(e.stat.Samples) < 2 && !x.pruned && (e.stat.Complete == 1 || e.stat.Complete == 50) {
			e.stat.Samples = append(e.stat.Samples, fmt.Sprintf("schedule %v: %d steps, %d threads, outcome %v", x.choices(), x.steps, len(x.threads), keysOfInt(x.stat.Outcomes)))
		}
		if x.viol != nil {
			v := e.confirm(x, body)
			if v != nil {
				if e.cfg.Known != nil && e.cfg.Known(v) {
					e.stat.KnownHits[v.Signature()]++
				} else {
					return v, racy, false, nil
				}
			}
		}
		// backtrack
		e.stack = x.points
		i := len(e.stack) - 1
		next := -1
		for ; i >= 0; i-- {
			p := &e.stack[i]
			for a := p.chosen + 1; a < p.n; a++ {
				c := p.costs[a]
				if p.cost[0]+int(c&15) > e.bound[0] {
					e.hitPre = true
					continue
				}
				if p.cost[1]+int(c>>4) > e.bound[1] {
					e.hitFlt = true
					continue
				}
				next = a
				break
			}
			if next >= 0 {
				break
			}
		}
		if i < 0 {
			return nil, racy, false, nil
		}
		prefix = make([]int, i+1)
		for j := 0; j < i; j++ {
			prefix[j] = e.stack[j].chosen
		}
		prefix[i] = next
		e.stack = e.stack[:i+1]
		if !e.cfg.Deadline.IsZero() && e.stat.Executions&63 == 0 && time.Now().After(e.cfg.Deadline) {
			return nil, racy, true, nil
		}
		if e.cfg.MaxExec > 0 && e.stat.Executions >= e.cfg.MaxExec {
			return nil, racy, true, nil
		}
	}
}

func keysOfInt(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// confirm replays a violation; it has to show up again three times, in no more than ten replays.
func (e *Explorer) confirm(x *exec, body func()) *Violation {
	choices := x.choices()
	var last *exec
	for i, failed := 0, 0; failed < 3; i++ {
		if i == 10 {
			e.stat.Unconfirmed++
			e.stat.LastUnconfirmed = x.viol.Kind + ": " + x.viol.Message
			return nil
		}
		y := runExec(e.cfg, nil, choices, body, true)
		if x.viol.Kind == "fatal" {
			for k, r := range y.racy {
				if kind, ok := harmful(r); ok && y.viol == nil {
					y.viol = &Violation{Kind: "fatal", Message: kind + ": " + k}
				}
			}
		}
		if y.viol != nil && y.viol.Kind == x.viol.Kind {
			failed++
			last = y
		}
	}
	return &Violation{Kind: last.viol.Kind, Message: last.viol.Message, Choices: choices, Trace: last.traceLog, Preemptions: last.cost[0]}
}

// Replay runs one recorded execution.
func Replay(cfg Config, choices []int, keys []string, body func()) ([]string, *Violation) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	promoted = map[int]bool{}
	promotedKeys = map[string]bool{}
	for _, k := range keys {
		promote(k)
	}
	x := runExec(&cfg, nil, choices, body, true)
	for k, r := range x.racy {
		if kind, ok := harmful(r); ok && x.viol == nil {
			x.viol = &Violation{Kind: "fatal", Message: kind + ": " + k}
		}
	}
	return x.traceLog, x.viol
}

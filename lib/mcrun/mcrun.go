// Package mcrun runs one exploration job of a property check and reports what it covered.
package mcrun

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Violation is a finding of a job.
type Violation struct {
	Signature string   `json:"signature"`
	Detail    string   `json:"detail,omitempty"`
	Choices   []int    `json:"choices,omitempty"`
	Promoted  []string `json:"promoted,omitempty"`
	Trace     []string `json:"trace,omitempty"`
}

// Result of a job.
type Result struct {
	Job         string         `json:"job"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Traces      int            `json:"traces"`
	Executions  int            `json:"executions"`
	Exhaustive  bool           `json:"exhaustive"`
	Bound       string         `json:"bound"`
	Outcomes    map[string]int `json:"outcomes,omitempty"`
	Samples     []string       `json:"samples,omitempty"`
	Violations  []Violation    `json:"violations,omitempty"`
	Known       map[string]int `json:"known,omitempty"`
	Extra       map[string]any `json:"extra,omitempty"`
	Error       string         `json:"error,omitempty"`
	Wall        float64        `json:"wall"`
}

// Ctx is what a job works with.
type Ctx struct {
	Property string
	Job      string
	Thorough bool
	Deadline time.Time
	Replay   *Violation
	Result   Result
	known    map[string]bool
	tick     atomic.Int64
	what     atomic.Value
}

type job struct {
	prop, name string
	thorough   bool
	run        func(*Ctx)
}

var jobs []job

// Job registers an exploration for a property; it runs in both tiers.
func Job(prop, name string, run func(*Ctx)) { jobs = append(jobs, job{prop, name, false, run}) }

// ThoroughJob runs in the thorough tier only.
func ThoroughJob(prop, name string, run func(*Ctx)) { jobs = append(jobs, job{prop, name, true, run}) }

// Tier picks a bound.
func Tier[T any](c *Ctx, quick, thorough T) T {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Known tells whether a signature is a listed finding of this property; it is counted.
func (c *Ctx) Known(signature string) bool {
	for k := range c.known {
		if k == signature {
			c.KnownHit(signature)
			return true
		}
	}
	return false
}

func (c *Ctx) IsKnown(signature string) bool { return c.known[signature] }

func (c *Ctx) KnownHit(signature string) {
	if c.Result.Known == nil {
		c.Result.Known = map[string]int{}
	}
	c.Result.Known[signature]++
}

type stop struct{}

// Fail reports a violation and ends the job, unless it is known.
func (c *Ctx) Fail(signature string, format string, args ...any) {
	if c.Known(signature) {
		return
	}
	c.Result.Violations = append(c.Result.Violations, Violation{Signature: signature, Detail: fmt.Sprintf(format, args...)})
	panic(stop{})
}

// Step counts a transition and keeps the watchdog quiet.
func (c *Ctx) Step() { c.Result.Transitions++; c.tick.Add(1) }

// Doing remembers what is executed, for the report of a hang.
func (c *Ctx) Doing(s string) { c.what.Store(s); c.tick.Add(1) }

// State counts a state.
func (c *Ctx) State() { c.Result.States++ }

// Trace counts an execution of the implementation that was compared with the oracle.
func (c *Ctx) Trace() { c.Result.Traces++; c.Result.Executions++; c.tick.Add(1) }

func (c *Ctx) Outcome(s string) {
	if c.Result.Outcomes == nil {
		c.Result.Outcomes = map[string]int{}
	}
	if _, ok := c.Result.Outcomes[s]; !ok && len(c.Result.Outcomes) > 5000 {
		s = "..."
	}
	c.Result.Outcomes[s]++
}

func (c *Ctx) Sample(format string, args ...any) {
	if len(c.Result.Samples) < 3 {
		c.Result.Samples = append(c.Result.Samples, fmt.Sprintf(format, args...))
	}
}

func (c *Ctx) Extra(k string, v any) {
	if c.Result.Extra == nil {
		c.Result.Extra = map[string]any{}
	}
	c.Result.Extra[k] = v
}

// Expired tells whether the time is up; the job then ends with Exhaustive false.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.Deadline) {
		c.Result.Exhaustive = false
		return true
	}
	return false
}

// Guard calls f and turns a panic of the product into a violation.
func (c *Ctx) Guard(what func() string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, false)]
			c.Fail(fmt.Sprintf("panic: %v", r), "%s\n%s", what(), buf)
		}
	}()
	f()
}

func (c *Ctx) watch() {
	last, idle := int64(-1), 0
	for {
		time.Sleep(5 * time.Second)
		n := c.tick.Load()
		if n == last {
			idle++
		} else {
			idle = 0
		}
		last = n
		if idle >= 18 && n > 0 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			w, _ := c.what.Load().(string)
			c.Result.Violations = append(c.Result.Violations, Violation{Signature: "hang: no progress", Detail: w + "\n" + string(buf)})
			c.finish()
		}
	}
}

// Watch starts the watchdog of a plain enumeration.
func (c *Ctx) Watch() { go c.watch() }

var outFile string
var started time.Time

func (c *Ctx) finish() {
	c.Result.Job = c.Job
	c.Result.Wall = time.Since(started).Seconds()
	data, err := json.Marshal(c.Result)
	if err == nil {
		err = os.WriteFile(outFile, data, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	profile()
	os.Exit(0)
}

var profile = func() {}

// Finish ends the process with what is known so far.
func (c *Ctx) Finish() { c.finish() }

// Main is the entry point of a harness binary.
func Main() {
	prop := flag.String("prop", "", "property")
	name := flag.String("job", "", "job")
	list := flag.Bool("list", false, "list the jobs")
	tier := flag.String("tier", "quick", "tier")
	budget := flag.Duration("budget", time.Minute, "time")
	known := flag.String("known", "", "file with known signatures, a JSON list")
	replay := flag.String("replay", "", "file with a violation to replay")
	flag.StringVar(&outFile, "out", "/dev/stdout", "result")
	flag.Parse()
	started = time.Now()
	if f := os.Getenv("MC_PROFILE"); f != "" { // for development
		w, err := os.Create(f)
		if err == nil && pprof.StartCPUProfile(w) == nil {
			profile = pprof.StopCPUProfile
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].prop < jobs[j].prop })
	if *list {
		for _, j := range jobs {
			if (*prop == "" || j.prop == *prop) && (!j.thorough || *tier == "thorough") {
				fmt.Println(j.prop + " " + j.name)
			}
		}
		return
	}
	for _, j := range jobs {
		if j.prop != *prop || j.name != *name {
			continue
		}
		c := &Ctx{Property: *prop, Job: j.name, Thorough: *tier == "thorough", Deadline: started.Add(*budget), known: map[string]bool{}}
		c.Result.Exhaustive = true
		if *known != "" {
			data, err := os.ReadFile(*known)
			var l []string
			if err == nil {
				err = json.Unmarshal(data, &l)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			for _, s := range l {
				c.known[s] = true
			}
		}
		if *replay != "" {
			data, err := os.ReadFile(*replay)
			if err == nil {
				c.Replay = &Violation{}
				err = json.Unmarshal(data, c.Replay)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stop); !ok {
						panic(r)
					}
				}
			}()
			j.run(c)
		}()
		c.finish()
	}
	fmt.Fprintln(os.Stderr, "no such job: "+*prop+" "+*name)
	os.Exit(3)
}

// Join is strings.Join with a limit, for messages.
func Join(parts []string, sep string) string {
	if len(parts) > 40 {
		parts = append(append([]string{}, parts[:40]...), "...")
	}
	return strings.Join(parts, sep)
}

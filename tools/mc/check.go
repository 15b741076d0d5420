package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type violation struct {
	Signature string   `json:"signature"`
	Detail    string   `json:"detail,omitempty"`
	Choices   []int    `json:"choices,omitempty"`
	Promoted  []string `json:"promoted,omitempty"`
	Trace     []string `json:"trace,omitempty"`
}

type result struct {
	Job         string         `json:"job"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Traces      int            `json:"traces"`
	Executions  int            `json:"executions"`
	Exhaustive  bool           `json:"exhaustive"`
	Bound       string         `json:"bound"`
	Outcomes    map[string]int `json:"outcomes,omitempty"`
	Samples     []string       `json:"samples,omitempty"`
	Violations  []violation    `json:"violations,omitempty"`
	Known       map[string]int `json:"known,omitempty"`
	Extra       map[string]any `json:"extra,omitempty"`
	Error       string         `json:"error,omitempty"`
	Wall        float64        `json:"wall"`
}

// binary of harnesses: directory below harness/, and how /repo is built into it.
type binary struct {
	Dir     string   `json:"dir"`
	Plain   bool     `json:"plain"`
	Shims   []string `json:"shims"`   // in plain mode
	Program bool     `json:"program"` // with package cmd
}

type propConf struct {
	Bins     []string `json:"bins"`
	Quick    int      `json:"quick"`    // seconds
	Thorough int      `json:"thorough"` // seconds
	Assume   []string `json:"assume"`
}

type config struct {
	Bins   map[string]binary   `json:"bins"`
	Props  map[string]propConf `json:"props"`
	Assume []string            `json:"assume"`
}

type finding struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	Text      string `json:"text"`
	Status    string `json:"status"` // known or fixed
	Commit    string `json:"commit,omitempty"`
}

var verif = "/verif"
var repoDir = "/repo"

func build(conf config, name string, tmp string) (string, error) {
	b := conf.Bins[name]
	out := filepath.Join(tmp, name)
	os.MkdirAll(out, 0o755)
	opt = instrOptions{repo: repoDir, lib: filepath.Join(verif, "lib"), out: out, plain: b.Plain, program: b.Program, plainShims: map[string]bool{}}
	for _, s := range b.Shims {
		opt.plainShims[s] = true
	}
	dir := filepath.Join(verif, "harness", b.Dir)
	entries, err := os.ReadDir(dir)
	if err != nil {
		return "", err
	}
	for _, e := range entries {
		if !e.IsDir() {
			continue
		}
		rel, isIn := strings.CutPrefix(e.Name(), "in_")
		if isIn {
			rel = strings.ReplaceAll(rel, "__", "/")
		} else {
			rel = "zzverif/" + e.Name()
		}
		opt.harness = append(opt.harness, [2]string{filepath.Join(dir, e.Name()), rel})
	}
	fmt.Fprintf(os.Stderr, "[%s] building %s\n", time.Now().Format("15:04:05"), name)
	overlay := instrumentAll()
	bin := filepath.Join(out, "harness.bin")
	cmd := exec.Command("go", "build", "-overlay", overlay, "-o", bin, modulePath+"/zzverif/main")
	cmd.Dir = repoDir
	msg, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("build of %s failed: %v\n%s", name, err, msg)
	}
	return bin, nil
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: mc check ID [-replay FILE] | build DIR BIN | instr ...")
	}
	if v := os.Getenv("MC_VERIF"); v != "" {
		verif = v
	}
	if v := os.Getenv("MC_REPO"); v != "" {
		repoDir = v
	}
	var conf config
	data, err := os.ReadFile(filepath.Join(verif, "harness", "config.json"))
	if err == nil {
		err = json.Unmarshal(data, &conf)
	}
	if err != nil {
		fatal("%v", err)
	}
	switch os.Args[1] {
	case "build": // build DIR BIN...: for development
		for _, b := range os.Args[3:] {
			bin, err := build(conf, b, os.Args[2])
			if err != nil {
				fatal("%v", err)
			}
			fmt.Println(bin)
		}
	case "warm":
		tmp, err := os.MkdirTemp("", "mc")
		if err != nil {
			fatal("%v", err)
		}
		defer os.RemoveAll(tmp)
		for b := range conf.Bins {
			if _, err := build(conf, b, tmp); err != nil {
				os.RemoveAll(tmp)
				fatal("%v", err)
			}
		}
	case "check":
		os.Exit(check(conf, os.Args[2], os.Args[3:]))
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func check(conf config, id string, args []string) int {
	start := time.Now()
	p, ok := conf.Props[id]
	if !ok {
		fatal("unknown property %s", id)
	}
	tier := os.Getenv("VERIF_TIER")
	replay := ""
	only := ""
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-replay":
			replay = args[i+1]
			i++
		case "-tier":
			tier = args[i+1]
			i++
		case "-only":
			only = args[i+1]
			i++
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	budget := p.Quick
	if budget == 0 {
		budget = 60
	}
	if tier == "thorough" {
		budget = p.Thorough
		if budget == 0 {
			budget = 600
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "mc")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)

	bins := map[string]string{}
	for _, b := range p.Bins {
		bin, err := build(conf, b, tmp)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		bins[b] = bin
	}

	known := map[string]finding{}
	var knownList = []string{}
	if data, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		var l []finding
		if err := json.Unmarshal(data, &l); err != nil {
			fatal("known_findings.json: %v", err)
		}
		for _, f := range l {
			if f.Property == id && f.Status == "known" {
				known[f.Signature] = f
				knownList = append(knownList, f.Signature)
			}
		}
	}
	knownFile := filepath.Join(tmp, "known.json")
	kd, _ := json.Marshal(knownList)
	os.WriteFile(knownFile, kd, 0o644)

	if replay != "" {
		var r struct {
			Bin, Job  string
			Violation violation
		}
		data, err := os.ReadFile(replay)
		if err == nil {
			err = json.Unmarshal(data, &r)
		}
		if err != nil {
			fatal("%v", err)
		}
		f := filepath.Join(tmp, "replay.json")
		vd, _ := json.Marshal(r.Violation)
		os.WriteFile(f, vd, 0o644)
		cmd := exec.Command(bins[r.Bin], "-prop", id, "-job", r.Job, "-tier", tier, "-replay", f, "-out", filepath.Join(tmp, "out.json"))
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		cmd.Run()
		out, _ := os.ReadFile(filepath.Join(tmp, "out.json"))
		fmt.Println(string(out))
		return 0
	}

	type work struct{ bin, job string }
	var list []work
	for _, b := range p.Bins {
		out, err := exec.Command(bins[b], "-list", "-prop", id, "-tier", tier).Output()
		if err != nil {
			fmt.Fprintf(os.Stderr, "list %s: %v\n", b, err)
			return 3
		}
		for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
			_, job, ok := strings.Cut(l, " ")
			if ok && (only == "" || only == job) {
				list = append(list, work{b, job})
			}
		}
	}
	if len(list) == 0 {
		fmt.Fprintln(os.Stderr, "no jobs for "+id)
		return 3
	}

	parallel := 8
	rounds := (len(list) + parallel - 1) / parallel
	deadline := time.Now().Add(time.Duration(budget) * time.Second)
	perJob := time.Duration(budget) * time.Second / time.Duration(rounds)
	var mu sync.Mutex
	var wg sync.WaitGroup
	results := make([]*result, len(list))
	var firstErr string
	stop := false
	next := 0
	for w := 0; w < parallel; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(list) || stop {
					mu.Unlock()
					return
				}
				i := next
				next++
				left := len(list) - i
				mu.Unlock()
				// a job may use what its predecessors left over
				b := perJob
				if rest := time.Until(deadline); rest > b {
					if left > parallel {
						rest = max(b, rest*time.Duration(parallel)/time.Duration(left))
					}
					b = rest
				}
				r, err := runJob(bins[list[i].bin], id, list[i].job, tier, b, knownFile, filepath.Join(tmp, fmt.Sprintf("r%d.json", i)))
				if r != nil && len(r.Violations) > 0 && r.Violations[0].Choices == nil {
					// confirm: it has to be there again
					r2, err2 := runJob(bins[list[i].bin], id, list[i].job, tier, b+time.Minute, knownFile, filepath.Join(tmp, fmt.Sprintf("c%d.json", i)))
					if err2 != nil || r2 == nil || len(r2.Violations) == 0 {
						fmt.Fprintf(os.Stderr, "%s: not confirmed: %s\n", list[i].job, r.Violations[0].Signature)
						r.Violations = nil
						r.Exhaustive = false
					}
				}
				mu.Lock()
				results[i] = r
				if err != nil && firstErr == "" {
					firstErr = fmt.Sprintf("job %s: %v", list[i].job, err)
				}
				if r != nil && len(r.Violations) > 0 {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	exhaustive := true
	states, trans, traces, execs, nviol := 0, 0, 0, 0, 0
	outcomes := map[string]bool{}
	knownHits := map[string]int{}
	var samples []string
	jobsEv := []map[string]any{}
	var bad *violation
	var badWork work
	for i, r := range results {
		if r == nil {
			exhaustive = false
			continue
		}
		if r.Error != "" && firstErr == "" {
			firstErr = "job " + list[i].job + ": " + r.Error
		}
		states += r.States
		trans += r.Transitions
		traces += r.Traces
		execs += r.Executions
		if !r.Exhaustive {
			exhaustive = false
		}
		var oc []string
		for o := range r.Outcomes {
			outcomes[list[i].job+": "+o] = true
			oc = append(oc, o)
		}
		sort.Strings(oc)
		noc := len(oc)
		if len(oc) > 8 {
			oc = oc[:8]
		}
		for k, n := range r.Known {
			knownHits[k] += n
		}
		for _, s := range r.Samples {
			if len(samples) < 12 {
				samples = append(samples, list[i].job+": "+s)
			}
		}
		ev := map[string]any{"job": list[i].job, "states": r.States, "transitions": r.Transitions, "executions": r.Executions, "compared": r.Traces, "exhaustive": r.Exhaustive, "bound": r.Bound, "distinct_outcomes": noc, "outcomes": oc, "wall_s": r.Wall}
		for k, v := range r.Extra {
			ev[k] = v
		}
		jobsEv = append(jobsEv, ev)
		fmt.Fprintf(os.Stderr, "%-40s states %9d steps %10d exec %8d outcomes %4d exhaustive %-5v %5.1fs %s\n", list[i].job, r.States, r.Transitions, r.Executions, noc, r.Exhaustive, r.Wall, r.Bound)
		for vi := range r.Violations {
			nviol++
			if bad == nil {
				bad = &r.Violations[vi]
				badWork = list[i]
			}
		}
	}
	if samples == nil {
		samples = []string{"none"}
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": traces,
		"executions": execs, "samples": samples, "exhaustive": exhaustive,
		"distinct_outcomes": len(outcomes), "jobs": jobsEv,
		"rule": "every execution runs the code of /repo's working tree; a trace is validated when a complete execution of the implementation agreed with the oracle",
	}
	if len(knownHits) > 0 {
		cov["known_findings_hit"] = knownHits
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(append([]string{}, conf.Assume...), p.Assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, f := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.Text)
	}
	if bad != nil {
		file := filepath.Join(verif, "evidence", "replay", id+".json")
		data, _ := json.MarshalIndent(map[string]any{"property": id, "bin": badWork.bin, "job": badWork.job, "tier": tier, "violation": bad}, "", " ")
		os.WriteFile(file, data, 0o644)
		fmt.Fprintf(os.Stderr, "%s: %s\n%s\n", badWork.job, bad.Signature, clip(bad.Detail))
		for i := 0; i < len(bad.Trace); {
			j := i
			for j < len(bad.Trace) && bad.Trace[j] == bad.Trace[i] {
				j++
			}
			if i < 150 || i > len(bad.Trace)-150 {
				fmt.Fprintf(os.Stderr, "   %s", bad.Trace[i])
				if j > i+1 {
					fmt.Fprintf(os.Stderr, " (%d times)", j-i)
				}
				fmt.Fprintln(os.Stderr)
			}
			i = j
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		return 1
	}
	if firstErr != "" {
		fmt.Fprintln(os.Stderr, firstErr)
		return 3
	}
	return 0
}

func clip(s string) string {
	if len(s) > 4000 {
		return s[:4000] + "..."
	}
	return s
}

var repoFrame = regexp.MustCompile(`github\.com/ftl/sdrainer/(rx|cw|dsp|kiwi|tci|telnet|scope|cli)[./]`)

func runJob(bin, id, job, tier string, budget time.Duration, known, out string) (*result, error) {
	cmd := exec.Command(bin, "-prop", id, "-job", job, "-tier", tier, "-budget", budget.String(), "-known", known, "-out", out)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3500MiB", "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var stderr strings.Builder
	cmd.Stderr = &limited{b: &stderr}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	timer := time.AfterFunc(budget+100*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	if err != nil {
		text := stderr.String()
		if os.Getenv("MC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, text)
		}
		// the program was ended by the runtime: a crash of the code under test
		for _, marker := range []string{"panic: ", "fatal error: "} {
			if i := strings.Index(text, marker); i >= 0 && repoFrame.MatchString(text) && !strings.Contains(text, "out of memory") {
				line, _, _ := strings.Cut(text[i:], "\n")
				return &result{Job: job, Violations: []violation{{Signature: "crash: " + line, Detail: text}}}, nil
			}
		}
		return nil, fmt.Errorf("%v\n%s", err, clip(text))
	}
	data, err := os.ReadFile(out)
	if err != nil {
		return nil, err
	}
	r := new(result)
	if err := json.Unmarshal(data, r); err != nil {
		return nil, err
	}
	return r, nil
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

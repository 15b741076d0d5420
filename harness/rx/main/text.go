package main

import (
	"bufio"
	"fmt"
	"io"
	"regexp"
	"strings"
	"time"

	"github.com/ftl/hamradio/callsign"
	"github.com/ftl/hamradio/dxcc"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

// The callsigns in a text: a word that begins with (prefix/)base call(/suffix)(/working condition).
var word = regexp.MustCompile(`\s(?:([a-z0-9]+)/)?(([a-z]|[a-z][a-z]|[0-9][a-z]|[0-9][a-z][a-z])[0-9][a-z0-9]*[a-z])(?:/([a-z0-9]+))?(?:/(p|a|m|mm|am))?`)

// candidates are the callsigns in text from pos on; without the tail, the last word only counts
// if something follows that ends it.
func candidates(text string, pos int, tail bool) ([]string, int) {
	var res []string
	for pos < len(text) {
		m := word.FindStringIndex(text[pos:])
		if m == nil {
			break
		}
		end := pos + m[1]
		if !tail && strings.Trim(text[end:], "abcdefghijklmnopqrstuvwxyz0123456789/") == "" {
			break
		}
		res = append(res, text[pos+m[0]:end])
		pos = end
	}
	return res, pos
}

// model is the reference for the decision what to report.
type model struct {
	counts map[string]int
	weight func(string) int
	valid  func(string) bool
	best   string
}

func newModel() *model {
	return &model{counts: map[string]int{}, weight: func(string) int { return 0 }, valid: func(string) bool { return true }}
}

func (m *model) heard(candidate string) []event {
	candidate = strings.TrimSpace(candidate)
	if strings.HasPrefix(candidate, "tu5nn") {
		return nil
	}
	c, err := callsign.Parse(candidate)
	if err != nil {
		return nil
	}
	call := c.String()
	if !m.valid(call) {
		return nil
	}
	m.counts[call]++
	res := []event{{kind: "decoded", call: call, count: m.counts[call], weight: m.weight(call)}}
	score := func(c string) int { return m.counts[c] + m.weight(c) }
	if score(call) >= 3 && (m.best == "" || score(call) > score(m.best)) && m.best != call {
		if m.best != "" {
			res = append(res, event{kind: "timeout", call: m.best})
		}
		m.best = call
	}
	if m.best != "" {
		res = append(res, event{kind: "spotted", call: m.best})
	}
	return res
}

func (m *model) all(cs []string) []event {
	var res []event
	for _, c := range cs {
		res = append(res, m.heard(c)...)
	}
	return res
}

func decoded(events []event) string {
	var res []string
	for _, e := range events {
		if e.kind == "decoded" {
			res = append(res, e.call)
		}
	}
	return strings.Join(res, " ")
}

// compare checks the reports up to now.
func compare(what string, rec *textRecorder, want []event) {
	if got, exp := rec.text(), str(want); got != exp {
		vsched.Fail("%s: reported [%s], expected [%s]", what, got, exp)
	}
}

func write(p *rx.TextProcessor, text string, chunk int) {
	for len(text) > 0 {
		n := min(chunk, len(text))
		k, err := p.Write([]byte(text[:n]))
		if err != nil || k != n {
			vsched.Fail("write: %d %v", k, err)
		}
		text = text[n:]
	}
}

func textJobs() {
	extractionJobs()
	spottingJobs()
	processorJobs()
}

// --- C03 ---

func extractionJobs() {
	prop := "C03"
	run := func(text string, chunk int) {
		rec := &textRecorder{}
		clk := &clock{t0}
		p := rx.NewTextProcessor(nil, clk, rec)
		p.Start()
		write(p, text, chunk)
		vsched.WaitQuiescent()
		m := newModel()
		cs, pos := candidates(text, 0, false)
		want := m.all(cs)
		what := fmt.Sprintf("%q in chunks of %d", text, chunk)
		compare(what, rec, want)
		clk.add(4 * time.Second)
		p.CheckWriteTimeout()
		vsched.WaitQuiescent()
		compare(what+" after 4 seconds", rec, want)
		clk.add(2 * time.Second)
		p.CheckWriteTimeout()
		vsched.WaitQuiescent()
		cs, _ = candidates(text, pos, true)
		want = append(want, m.all(cs)...)
		compare(what+" after 6 seconds", rec, want)
		p.CheckWriteTimeout()
		vsched.WaitQuiescent()
		compare(what+" after 6 seconds, once more", rec, want)
		p.Stop()
		vsched.Outcome("%d callsigns", len(strings.Fields(decoded(rec.events))))
	}
	for _, chunk := range []int{1, 2, 100} {
		chunk := chunk
		check(prop, fmt.Sprintf("all strings, chunks of %d", chunk), 0, 0, func(c *mcrun.Ctx) {
			const alphabet = "d1 /p"
			n := mcrun.Tier(c, 6, 8)
			b := []byte(" d")
			for i := 0; i < n; i++ {
				b = append(b, alphabet[vsched.Choose(len(alphabet), "char")])
			}
			run(string(b), chunk)
		})
	}
	words := []string{"dl1abc", "k1a", "pj2/dl1abc", "dl1abc/p", "9a/oh2abc/7/mm", "w100abcde", "cq", "dl1ab1c", "de", "tu5nn", "?dl1abc", "dl1abc?", "d1"}
	for _, chunk := range []int{1, 3, 17, 100} {
		chunk := chunk
		check(prop, fmt.Sprintf("words at all positions, chunks of %d", chunk), 0, 0, func(c *mcrun.Ctx) {
			pad := vsched.Choose(mcrun.Tier(c, 40, 80), "position")
			text := strings.Repeat("x", pad)
			for i := 0; i < 2; i++ {
				text += " " + words[vsched.Choose(len(words), "word")]
			}
			run(text, chunk)
		})
	}
	check(prop, "three words, all separators", 0, 0, func(c *mcrun.Ctx) {
		seps := []string{" ", "  ", "\u00a6", "? ", "\n"}
		text := strings.Repeat("e", vsched.Choose(3, "position")*9)
		for i := 0; i < mcrun.Tier(c, 2, 3); i++ {
			text += seps[vsched.Choose(len(seps), "separator")] + []string{"dl1abc", "k1a/p", "r5nn", "ab/k2x"}[vsched.Choose(4, "word")]
		}
		run(text+seps[vsched.Choose(len(seps), "separator")], []int{1, 100}[vsched.Choose(2, "chunk")])
	})
	for _, text := range []string{" dl1abc/p k", "cq ab1c ab1c", "e k1a/4/m e"} {
		text := text
		check(prop, fmt.Sprintf("all partitions of %q", text), 0, 0, func(c *mcrun.Ctx) {
			rec := &textRecorder{}
			p := rx.NewTextProcessor(nil, &clock{t0}, rec)
			p.Start()
			from := 0
			for i := 1; i <= len(text); i++ {
				if i == len(text) || vsched.Choose(2, "split") == 1 {
					write(p, text[from:i], 100)
					from = i
				}
			}
			vsched.WaitQuiescent()
			cs, _ := candidates(text, 0, false)
			compare(fmt.Sprintf("%q", text), rec, newModel().all(cs))
			vsched.Outcome("%s", decoded(rec.events))
		})
	}
	// a pause after each position
	pauses := []string{"e dl1abc dl2xy/p k", "dl1abc dl1abcd dl2xy", strings.Repeat("e", 15) + " pj2/dl1abc/p k1a"}
	for i, text := range pauses {
		text := text
		check(prop, fmt.Sprintf("pauses in text %d", i), 0, 0, func(c *mcrun.Ctx) {
			rec := &textRecorder{}
			clk := &clock{t0}
			p := rx.NewTextProcessor(nil, clk, rec)
			p.Start()
			m := newModel()
			var want []event
			pos := 0
			var cs []string
			at := []int{vsched.Choose(len(text), "first pause"), vsched.Choose(len(text), "second pause")}
			for k := range text {
				write(p, text[k:k+1], 1)
				cs, pos = candidates(text[:k+1], pos, false)
				want = append(want, m.all(cs)...)
				if k == at[0] || k == at[1] {
					clk.add(10 * time.Second)
					p.CheckWriteTimeout()
					cs, pos = candidates(text[:k+1], pos, true)
					want = append(want, m.all(cs)...)
				}
			}
			vsched.WaitQuiescent()
			compare(fmt.Sprintf("%q with pauses after %v", text, at), rec, want)
			vsched.Outcome("%s", decoded(rec.events))
		})
	}
	check(prop, "the text is passed on", 0, 0, func(c *mcrun.Ctx) {
		out := &strings.Builder{}
		p := rx.NewTextProcessor(out, &clock{t0}, &textRecorder{})
		p.Start()
		chunk := vsched.Choose(30, "chunk") + 1
		text := "cq de dl1abc k1a/p \u00a6 e e dl2xy "
		write(p, text, chunk)
		vsched.WaitQuiescent()
		if out.String() != text {
			vsched.Fail("output %q, expected %q", out, text)
		}
		vsched.Outcome("ok")
	})
	check(prop, "the output fails", 0, 0, func(c *mcrun.Ctx) {
		// the text is searched no matter what happens to the output
		rec := &textRecorder{}
		from := vsched.Choose(6, "failing from")
		to := from + vsched.Choose(4, "writes that fail")
		n := 0
		out := rx.WriterFunc(func(b []byte) (int, error) {
			n++
			if n > from && n <= to {
				return 0, io.ErrClosedPipe
			}
			return len(b), nil
		})
		p := rx.NewTextProcessor(out, &clock{t0}, rec)
		p.Start()
		chunk := vsched.Choose(4, "chunk")*3 + 1
		text := "cq de dl1abc k1a k "
		vsched.Quiet(func() {
			for i, at := 0, 0; at < len(text); i, at = i+1, at+chunk {
				end := min(len(text), at+chunk)
				written, err := p.Write([]byte(text[at:end]))
				failed := i >= from && i < to
				if failed != (err != nil) || (!failed && written != end-at) {
					vsched.Fail("write %d, writes %d to %d fail: %d, %v", i, from, to-1, written, err)
				}
				vsched.WaitQuiescent()
			}
			p.Stop()
		})
		compare("the output fails", rec, newModel().all([]string{"dl1abc", "k1a"}))
		vsched.Outcome("ok")
	})
	check(prop, "a report takes a long time", 0, 1, func(c *mcrun.Ctx) {
		// the text has to wait until the report is done
		rec := &textRecorder{}
		p := rx.NewTextProcessor(nil, &clock{t0}, rec)
		p.Start()
		chunk := []int{1, 2, 7}[vsched.Choose(3, "chunk")]
		pause := []time.Duration{0, 2 * time.Second, time.Minute, time.Hour}[vsched.Choose(4, "pause")]
		text := "cq dl1abc k1a e dl2xy dl2xy dl2xy k9zz "
		rec.hold = true
		t := vsched.GoNamed("text", func() {
			for at := 0; at < len(text); at += chunk {
				p.Write([]byte(text[at:min(len(text), at+chunk)]))
			}
		})
		vsched.Quiet(func() {
			vsched.WaitQuiescent()
			if !rec.held {
				vsched.Fail("nothing is reported")
			}
			vsched.Advance(pause)
			vsched.WaitQuiescent()
		})
		rec.release()
		vsched.WaitDone(t)
		vsched.WaitQuiescent()
		compare(fmt.Sprintf("a report takes %v", pause), rec, newModel().all([]string{"dl1abc", "k1a", "dl2xy", "dl2xy", "dl2xy", "k9zz"}))
		p.Stop()
		vsched.Outcome("ok")
	})
	check(prop, "reused buffer", 2, 3, func(c *mcrun.Ctx) {
		rec := &textRecorder{}
		p := rx.NewTextProcessor(nil, &clock{t0}, rec)
		p.Start()
		buf := make([]byte, 8)
		for _, s := range []string{" dl1abc ", " dl2xy  ", " k1a k2b"} {
			copy(buf, s)
			p.Write(buf)
		}
		p.Write([]byte(" "))
		vsched.WaitQuiescent()
		compare("reused buffer", rec, newModel().all([]string{"dl1abc", "dl2xy", "k1a", "k2b"}))
		vsched.Outcome("ok")
	})
}

// --- C04 ---

func spottingJobs() {
	prop := "C04"
	type setup struct {
		name         string
		dxcc, scp    bool
		calls        []string
		quick, depth int
	}
	known := map[string]bool{"DL1ABC": true, "OH2AA": true, "K9ZZ": true}
	prefixes, _ := dxcc.Read(bufio.NewReader(strings.NewReader(ctydat)))
	setups := []setup{
		{"both databases", true, true, []string{"dl1abc", "dl2xy", "oh2aa", "tu5nnx"}, 7, 8},
		{"both databases, more callsigns", true, true, []string{"dl1abc", "dl2xy", "k9zz", "k9zz/p", "oh2aa"}, 6, 7},
		{"both databases, portable callsigns", true, true, []string{"dl1abc", "dl/oh2aa", "oh2aa/p", "pj2/x1ab", "dl/tu5nn"}, 6, 7},
		{"no databases", false, false, []string{"dl1abc", "dl2xy", "oh2aa"}, 8, 9},
		{"no callsign database", true, false, []string{"dl1abc", "oh2aa", "k9zz/p"}, 7, 9},
		{"no prefix list", false, true, []string{"dl1abc", "dl2xy", "oh2aa"}, 8, 9},
	}
	for _, s := range setups {
		s := s
		check(prop, "histories/"+s.name, 0, 0, func(c *mcrun.Ctx) {
			m := newModel()
			if s.dxcc {
				withPrefixes()
				m.valid = func(call string) bool { _, found := prefixes.Find(call); return found }
			}
			if s.scp {
				withCalls("DL1ABC", "DL1ABD", "OH2AA", "K9ZZ")
				m.weight = func(call string) int {
					if known[call] {
						return 1
					}
					return 0
				}
			}
			rec := &textRecorder{}
			p := rx.NewTextProcessor(nil, &clock{t0}, rec)
			p.Start()
			text := ""
			var want []event
			for i := 0; i < mcrun.Tier(c, s.quick, s.depth); i++ {
				w := s.calls[vsched.Choose(len(s.calls), "callsign")]
				text += " " + w
				want = append(want, m.heard(w)...)
			}
			write(p, text+" ", 6)
			vsched.WaitQuiescent()
			compare(text, rec, want)
			n := map[string]int{}
			for _, e := range want {
				n[e.kind]++
			}
			vsched.Outcome("%v", n)
		})
	}
	falsePositiveJobs(prop)
	long(prop, "long histories", func(c *mcrun.Ctx) {
		// nothing is forgotten as long as the listener is attached
		others := []int{0, 1, 70, 1100}[vsched.Choose(4, "other callsigns")]
		times := []int{1, 2, 3, 300, 70000}[vsched.Choose(mcrun.Tier(c, 4, 5), "times")]
		last := vsched.Choose(2, "heard again") == 1
		inDatabase := [][]string{nil, {"DL1ABC"}, {"K0AAA"}, {"DL1ABC", "K0AAA"}}[vsched.Choose(4, "database")]
		if others > 100 && times > 300 || len(inDatabase) > 0 && (others > 100 || times > 300) {
			return
		}
		withCalls(inDatabase...)
		rec := &textRecorder{}
		p := rx.NewTextProcessor(nil, &clock{t0}, rec)
		p.Start()
		m := newModel()
		m.weight = func(call string) int {
			for _, c := range inDatabase {
				if c == call {
					return 1
				}
			}
			return 0
		}
		n := 0
		heard := func(w string) {
			write(p, " "+w+" ", 10)
			vsched.WaitQuiescent()
			want := m.heard(w)
			n++
			compare(fmt.Sprintf("%d other callsigns, %d times, callsign %d %s", others, times, n, w), rec, want)
			rec.events = nil
		}
		vsched.Quiet(func() {
			heard("dl1abc")
			for i := 0; i < others; i++ {
				heard(fmt.Sprintf("k%da%c%c", i%10, 'a'+i/10%26, 'a'+i/260))
			}
			for i := 0; i < times; i++ {
				heard("dl1abc")
			}
			if last {
				for i := 0; i < others; i++ {
					heard(fmt.Sprintf("k%da%c%c", i%10, 'a'+i/10%26, 'a'+i/260))
				}
				for i := 0; i <= times+1; i++ {
					heard("k0aaa")
				}
				if times < 1000 {
					// the lead changes again and again
					for i := 0; i < 40; i++ {
						for j := 0; j < 1+i%3; j++ {
							heard([]string{"dl1abc", "k0aaa", "ea1zz"}[i%3])
						}
					}
					for i := 0; i < times+90; i++ {
						heard("ea1zz")
					}
					for i := 0; i < 90; i++ {
						heard("dl1abc")
					}
				}
			}
		})
		vsched.Outcome("%d", len(m.counts))
	})
	check(prop, "known callsigns", 0, 0, func(c *mcrun.Ctx) {
		// all short callsigns against several databases
		db := [][]string{
			{"K1A"}, {"K1AB", "K1B"}, {"K11A", "D2ABA", "K1ABA"}, {"D22BBB", "D22BB", "K2A"}, {"K1AA/P", "K1AB"}, {},
		}[vsched.Choose(6, "database")]
		known := map[string]bool{}
		for _, call := range db {
			known[call] = true
		}
		call := []string{"K", "D"}[vsched.Choose(2, "prefix")] + []string{"1", "2", "11", "22"}[vsched.Choose(4, "number")]
		for i := 1 + vsched.Choose(3, "letters"); i > 0; i-- {
			call += []string{"A", "B"}[vsched.Choose(2, "letter")]
		}
		switch vsched.Choose(3, "portable") {
		case 1:
			call += "/P"
		case 2:
			call = "D2/" + call
		}
		withCalls(db...)
		rec := &textRecorder{}
		p := rx.NewTextProcessor(nil, &clock{t0}, rec)
		p.Start()
		m := newModel()
		m.weight = func(call string) int {
			if known[call] {
				return 1
			}
			return 0
		}
		text := ""
		var want []event
		for i := 0; i < 3; i++ {
			text += " " + strings.ToLower(call)
			want = append(want, m.heard(strings.ToLower(call))...)
		}
		write(p, text+" ", 100)
		vsched.WaitQuiescent()
		compare(text, rec, want)
		vsched.Outcome("known %v", known[call])
	})
}

func falsePositiveJobs(prop string) {
	// what the decoder makes out of noise, and all the callsigns that look similar
	check(prop, "false positives and similar callsigns", 0, 0, func(c *mcrun.Ctx) {
		call := []string{"", "dl/", "tu5/"}[vsched.Choose(3, "before")]
		call += []string{"t", "a"}[vsched.Choose(2, "first")] + []string{"u", "n", ""}[vsched.Choose(3, "second")] + []string{"5", "6", "55"}[vsched.Choose(3, "number")]
		for i := 1 + vsched.Choose(4, "letters"); i > 0; i-- {
			call += []string{"n", "a"}[vsched.Choose(2, "letter")]
		}
		call += []string{"", "/p"}[vsched.Choose(2, "after")]
		rec := &textRecorder{}
		p := rx.NewTextProcessor(nil, &clock{t0}, rec)
		p.Start()
		m := newModel()
		text := ""
		for i := 0; i < 3; i++ {
			text += " " + call
		}
		cs, _ := candidates(text+" ", 0, false)
		want := m.all(cs)
		write(p, text+" ", 100)
		vsched.WaitQuiescent()
		compare(text, rec, want)
		vsched.Outcome("%d reports", len(want))
	})
}

// --- C05 ---

func processorJobs() {
	prop := "C05"
	check(prop, "restart", 2, 3, func(c *mcrun.Ctx) {
		rec := &textRecorder{}
		rec.yield = true
		p := rx.NewTextProcessor(nil, &clock{t0}, rec)
		p.Start()
		before := []string{" dl1abc dl1abc dl1", "cq dl1abc dl1a", "eeeeeeeeeeee dl1a", "k1a k1a", " dl1abc dl1abc dl1abc dl1abc dl2xy "}[vsched.Choose(5, "text")]
		write(p, before, []int{6, 100}[vsched.Choose(2, "chunk")])
		p.Restart()
		n := len(rec.events)
		cs, _ := candidates(before, 0, false)
		want := newModel().all(cs)
		if got := str(rec.events); !strings.HasPrefix(str(want), got) {
			vsched.Fail("%q before the restart: reported [%s], expected [%s]", before, got, str(want))
		}
		after := []string{"bc dl1abc dl1abc k1a k1", " dl2xy dl2xy dl2xy dl1abc "}[vsched.Choose(2, "text after it")]
		write(p, after, 100)
		vsched.WaitQuiescent()
		cs, _ = candidates(after, 0, false)
		if got, exp := str(rec.events[n:]), str(newModel().all(cs)); got != exp {
			vsched.Fail("%q after %q and a restart: reported [%s], expected [%s]", after, before, got, exp)
		}
		vsched.Outcome("%d before", n)
	})
	check(prop, "restart at all positions", 0, 0, func(c *mcrun.Ctx) {
		rec := &textRecorder{}
		clk := &clock{t0}
		p := rx.NewTextProcessor(nil, clk, rec)
		p.Start()
		text := "cq cq de dl1abc dl1abc/p k9zz "
		k := vsched.Choose(len(text)+1, "position")
		write(p, text[:k], 1)
		if vsched.Choose(2, "quiescent") == 1 {
			vsched.WaitQuiescent()
		}
		clk.add(time.Hour)
		p.Restart()
		if p.LastWrite() != clk.now {
			vsched.Fail("the last write is %v after a restart at %v", p.LastWrite(), clk.now)
		}
		n := len(rec.events)
		after := []string{" dl1abc k9zz e", "k9zz dl1abc e", "bc dl2xy/p e"}[vsched.Choose(3, "text")]
		write(p, after, 1)
		vsched.WaitQuiescent()
		cs, _ := candidates(after, 0, false)
		if got, exp := str(rec.events[n:]), str(newModel().all(cs)); got != exp {
			vsched.Fail("%q after %q and a restart: reported [%s], expected [%s]", after, text[:k], got, exp)
		}
		vsched.Outcome("%d before", n)
	})
	check(prop, "stop while a report takes a long time", 0, 1, func(c *mcrun.Ctx) {
		rec := &textRecorder{}
		p := rx.NewTextProcessor(nil, &clock{t0}, rec)
		p.Start()
		restart := vsched.Choose(2, "restart") == 1
		pause := []time.Duration{0, 2 * time.Second, time.Minute, time.Hour}[vsched.Choose(4, "pause")]
		rec.hold = true
		vsched.Quiet(func() {
			write(p, " dl1abc dl1abc k1a ", 8)
			vsched.WaitQuiescent()
		})
		t := vsched.GoNamed("stop", func() {
			if restart {
				p.Restart()
			} else {
				p.Stop()
			}
			rec.after = true
		})
		vsched.Quiet(func() {
			vsched.WaitQuiescent()
			vsched.Advance(pause)
			vsched.WaitQuiescent()
		})
		if rec.after {
			vsched.Fail("stopped while a report is pending for %v", pause)
		}
		rec.release()
		vsched.WaitDone(t)
		vsched.WaitQuiescent()
		if restart {
			p.Stop()
		}
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("still running: %v", l)
		}
		vsched.Outcome("ok")
	})
	check(prop, "stop", 3, 4, func(c *mcrun.Ctx) {
		rec := &textRecorder{}
		rec.yield = true
		clk := &clock{t0}
		p := rx.NewTextProcessor(nil, clk, rec)
		p.Start()
		p.Start()
		text := " dl1abc dl1abc dl1abc dl2xy"
		write(p, text, 8)
		clk.add(10 * time.Second)
		p.CheckWriteTimeout()
		p.Stop()
		rec.after = true
		n := len(rec.events)
		p.Stop()
		vsched.WaitQuiescent()
		cs, _ := candidates(text, 0, true)
		if all := str(newModel().all(cs)); !strings.HasPrefix(all, rec.text()) {
			vsched.Fail("reported [%s] instead of the first ones of [%s]", rec.text(), all)
		}
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("still running after the stop: %v", l)
		}
		vsched.Outcome("%d reports", n)
	})
	check(prop, "last write", 0, 0, func(c *mcrun.Ctx) {
		clk := &clock{t0}
		p := rx.NewTextProcessor([]io.Writer{nil, &strings.Builder{}}[vsched.Choose(2, "output")], clk, &textRecorder{})
		want := t0
		if p.LastWrite() != want {
			vsched.Fail("the last write is %v in the beginning", p.LastWrite())
		}
		p.Start()
		hist := ""
		for i := 0; i < mcrun.Tier(c, 5, 6); i++ {
			clk.add(time.Minute)
			s := []string{"a", " ", "dl1abc ", "", "¦"}[vsched.Choose(5, "what")]
			switch {
			case s != "":
				p.Write([]byte(s))
				want = clk.now
			case vsched.Choose(2, "restart") == 1:
				p.Restart()
				want = clk.now
			default:
				p.CheckWriteTimeout()
			}
			hist += fmt.Sprintf("%q ", s)
			if got := p.LastWrite(); got != want {
				vsched.Fail("after %s: the last write is %v, expected %v", hist, got, want)
			}
			vsched.WaitQuiescent()
		}
		p.Stop()
		vsched.Outcome("ok")
	})
	check(prop, "start again", 1, 2, func(c *mcrun.Ctx) {
		rec := &textRecorder{}
		p := rx.NewTextProcessor(nil, &clock{t0}, rec)
		p.Stop()
		write(p, " dl1abc ", 100)
		p.Start()
		write(p, "dl2xy ", 100)
		vsched.WaitQuiescent()
		compare("text from before the start", rec, newModel().all([]string{"dl1abc", "dl2xy"}))
		vsched.Outcome("ok")
	})
	listenerJobs(prop)
}

// Harness for the KiwiSDR: messages, connection, reception. The server is an in-memory websocket.
package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"slices"
	"strings"
	"time"

	"github.com/ftl/sdrainer/kiwi"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/os"
	"github.com/ftl/sdrainer/zzverif/shim/websocket"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

func main() {
	messageJobs()
	connectionJobs()
	processJobs()
	mcrun.Main()
}

func check(prop, name string, quick, thorough int, body func(c *mcrun.Ctx)) {
	mcrun.Job(prop, name, func(c *mcrun.Ctx) {
		cfg := vsched.Config{Preemptions: mcrun.Tier(c, quick, thorough), MaxSteps: 2000000}
		vsched.Check(c, cfg, func() {
			websocket.OnDial, os.OnStdout = nil, nil
			body(c)
		})
	})
}

// checkLevels is a check that needs the noise level.
func checkLevels(prop, name string, quick, thorough int, body func(c *mcrun.Ctx)) {
	mcrun.Job(prop, name, func(c *mcrun.Ctx) {
		noiseLevel()
		cfg := vsched.Config{Preemptions: mcrun.Tier(c, quick, thorough), MaxSteps: 2000000}
		vsched.Check(c, cfg, func() {
			websocket.OnDial, os.OnStdout = nil, nil
			body(c)
		})
	})
}

const (
	text   = 1
	binmsg = 2
)

// handler records what it gets and keeps it.
type handler struct {
	connected []int
	rates     []int
	data      [][]float32
	copies    [][]float32
	yield     bool
	after     bool
	busy      bool
	hold      string // what the handler does not return from
	held      bool
	o         vsched.Obj
}

func (h *handler) release() { vsched.Point("release", &h.o, true, func() { h.hold = "" }) }

func (h *handler) enter(what string) {
	if h.after {
		vsched.Fail("%s after the end", what)
	}
	if h.busy {
		vsched.Fail("%s while the handler is busy", what)
	}
	if h.yield {
		h.busy = true
		vsched.Observe("%s", what)
		h.busy = false
	}
	if h.hold == what {
		h.held = true
		vsched.Block("handler", &h.o, func() bool { return h.hold == "" }, nil)
	}
}

func (h *handler) Connected(sampleRate int) {
	h.enter("connected")
	h.connected = append(h.connected, sampleRate)
}

func (h *handler) IQData(sampleRate int, data []float32) {
	h.enter("IQ data")
	h.rates = append(h.rates, sampleRate)
	h.data = append(h.data, data)
	h.copies = append(h.copies, append([]float32(nil), data...))
}

// open connects a client with a handler.
func open(h kiwi.KiwiHandler) (*kiwi.Client, *websocket.Conn) {
	conn := websocket.NewConn()
	websocket.OnDial = func(string) (*websocket.Conn, error) { return conn, nil }
	c, err := kiwi.Open("localhost:8073", "me", "secret", 7020000, 10000, h)
	if err != nil {
		vsched.Fail("cannot connect: %v", err)
	}
	return c, conn
}

// snd is an IQ message with the given samples after 17 bytes of header.
func snd(samples ...int16) []byte {
	res := append([]byte("SND"), make([]byte, 17)...)
	for _, s := range samples {
		res = binary.BigEndian.AppendUint16(res, uint16(s))
	}
	return res
}

func same(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && math.Abs(float64(a[i]-b[i])) > 1e-6 {
			return false
		}
	}
	return true
}

// model is what is expected of a client.
type model struct {
	rate      int
	connected []int
	rates     []int
	data      [][]float32
	dead      bool
}

func (m *model) message(typ int, b []byte) {
	if m.dead || typ != binmsg || len(b) < 3 {
		return
	}
	payload := b[3:]
	switch string(b[:3]) {
	case "MSG":
		for _, part := range strings.Split(string(payload), " ") {
			key, value, ok := strings.Cut(part, "=")
			if !ok {
				continue
			}
			key, value = strings.TrimSpace(key), strings.TrimSpace(value)
			failed := false
			switch {
			case key == "too_busy" || key == "badp" || key == "down":
				m.dead = m.dead || value == "1"
			case key == "audio_rate":
				n := 0
				failed = value == ""
				for _, d := range value {
					if d < '0' || d > '9' {
						failed = true
					}
					n = n*10 + int(d-'0')
				}
				if failed {
					n = 0
				}
				m.rate = n
			case strings.HasPrefix(key, "load_"):
				failed = strings.HasSuffix(value, "%") || strings.Contains(value, "%x")
			}
			if m.dead || failed {
				break // the rest of the message is not used
			}
		}
		if m.rate != 0 && len(m.connected) == 0 {
			m.connected = append(m.connected, m.rate)
		}
	case "SND":
		if m.rate == 0 || len(payload) < 17 {
			return
		}
		var data []float32
		for p := payload[17:]; len(p) >= 2; p = p[2:] {
			data = append(data, float32(int16(binary.BigEndian.Uint16(p)))/32767)
		}
		m.rates = append(m.rates, m.rate)
		m.data = append(m.data, data)
	}
}

func (m *model) compare(what any, h *handler, conn *websocket.Conn) {
	if fmt.Sprint(h.connected) != fmt.Sprint(m.connected) {
		vsched.Fail("%q: connected %v, expected %v", what, h.connected, m.connected)
	}
	if fmt.Sprint(h.rates) != fmt.Sprint(m.rates) {
		vsched.Fail("%q: IQ data with sample rates %v, expected %v", what, h.rates, m.rates)
	}
	for i := range m.data {
		if !same(h.data[i], m.data[i]) {
			if same(h.copies[i], m.data[i]) {
				vsched.Fail("%q: IQ data was changed later: %v, expected %v", what, h.data[i], m.data[i])
			}
			vsched.Fail("%q: IQ data %v, expected %v", what, h.data[i], m.data[i])
		}
	}
	if conn.Closed() != m.dead {
		vsched.Fail("%q: connection closed %v, expected %v", what, conn.Closed(), m.dead)
	}
}

// --- C25 ---

func messageJobs() {
	prop := "C25"
	messages := [][]byte{
		[]byte("MSG audio_rate=12000"), []byte("MSG audio_rate=48000 x=y"), []byte("MSG"), []byte("MSG client_public_ip=1 x"), []byte("MSG audio_rate="),
		[]byte("MSG too_busy=1"), []byte("MSG badp=0 too_busy=0 down=0 compression=1"), []byte("MSG x=1 down=1"), []byte("MSGbadp=1"),
		[]byte("MSG load_cfg=%7B%7D audio_rate=20250"), []byte("MSG audio_rate_true=7"), []byte("MSG x_audio_rate=8 audio_rate2=9.5"), []byte("MSG load_cfg=% audio_rate=1"),
		snd(), snd(1, -1, 32767, -32768), snd(0, 7), append(snd(5), 1), []byte("SND"), snd()[:19],
		[]byte("W/F123"), []byte("EXT"), []byte("XYZ audio_rate=1"), {}, []byte("MS"),
	}
	for first := 0; first < len(messages); first++ {
		first := first
		check(prop, fmt.Sprintf("all sequences of messages after %q", trim(messages[first])), 0, 0, func(c *mcrun.Ctx) {
			h, m := &handler{}, &model{}
			var conn *websocket.Conn
			var hist []string
			vsched.Quiet(func() { _, conn = open(h) })
			for i := 0; i < mcrun.Tier(c, 4, 5); i++ {
				k := first
				if i > 0 {
					k = vsched.Choose(len(messages)+1, "message")
				}
				typ := binmsg
				if k == len(messages) {
					k, typ = 0, text
				}
				hist = append(hist, trim(messages[k]))
				m.message(typ, messages[k])
				vsched.Quiet(func() { conn.Push(typ, append([]byte(nil), messages[k]...)) })
				m.compare(hist, h, conn)
			}
			vsched.Outcome("connected %v, data %d, dead %v", m.connected, len(m.data), m.dead)
		})
	}
	for first := range messages {
		first := first
		check(prop, fmt.Sprintf("all periodic histories from %q", trim(messages[first])), 0, 0, func(c *mcrun.Ctx) {
			// nothing wears out
			h, m := &handler{}, &model{}
			var conn *websocket.Conn
			pattern := []int{first}
			hist := []string{trim(messages[first])}
			known := vsched.Choose(2, "audio rate is known") == 1
			pause := []time.Duration{0, time.Hour}[vsched.Choose(2, "pause")]
			for n := 3; len(pattern) < n; {
				k := vsched.Choose(len(messages)+1, "message")
				if k == len(messages) {
					break
				}
				pattern = append(pattern, k)
				hist = append(hist, trim(messages[k]))
			}
			vsched.Quiet(func() {
				_, conn = open(h)
				if known {
					m.message(binmsg, messages[0])
					conn.Push(binmsg, append([]byte(nil), messages[0]...))
				}
				for i := 0; i < 60; i++ {
					for _, k := range pattern {
						m.message(binmsg, messages[k])
						conn.Push(binmsg, append([]byte(nil), messages[k]...))
					}
					vsched.WaitQuiescent()
					if i < 3 {
						vsched.Advance(pause)
						vsched.WaitQuiescent()
					}
				}
				vsched.WaitQuiescent()
			})
			m.compare(hist, h, conn)
			vsched.Outcome("connected %v, data %d, dead %v", m.connected, len(m.data), m.dead)
		})
	}
	tokens := []string{"audio_rate", "=", "0", "12000", "x", " ", "too_busy", "badp", "down", "1", "load_", "%", "%41", "-", "\xff", "compression", "\t"}
	for first := range tokens {
		first := first
		check(prop, fmt.Sprintf("all configurations beginning with %q", tokens[first]), 0, 0, func(c *mcrun.Ctx) {
			h := &handler{}
			var conn *websocket.Conn
			vsched.Quiet(func() { _, conn = open(h) })
			s := "MSG" + tokens[first]
			for i := 1; i < mcrun.Tier(c, 4, 5); i++ {
				k := vsched.Choose(len(tokens)+1, "token")
				if k == len(tokens) {
					break
				}
				s += tokens[k]
			}
			vsched.Quiet(func() { conn.Push(binmsg, []byte(s)) })
			// nothing but the three errors closes the connection
			dead := false
			rate := ""
			for _, part := range strings.Split(s[3:], " ") {
				key, value, _ := strings.Cut(part, "=")
				key, value = strings.TrimSpace(key), strings.TrimSpace(value)
				if (key == "too_busy" || key == "badp" || key == "down") && value == "1" {
					dead = true
				}
				if key == "audio_rate" && rate == "" {
					rate = value
				}
			}
			if conn.Closed() && !dead {
				vsched.Fail("%q closes the connection", s)
			}
			if len(h.connected) > 1 || (len(h.connected) == 1 && (h.connected[0] == 0 || !strings.Contains(s, fmt.Sprint(h.connected[0])))) {
				vsched.Fail("%q: connected %v", s, h.connected)
			}
			if len(h.connected) == 0 && (rate == "12000" || rate == "1") && !dead && !strings.Contains(s, "%") && strings.Count(s, "audio_rate") == 1 {
				vsched.Fail("%q does not connect", s)
			}
			vsched.Outcome("%v %v", h.connected, conn.Closed())
		})
	}
	check(prop, "all lengths", 0, 0, func(c *mcrun.Ctx) {
		h, m := &handler{}, &model{}
		var conn *websocket.Conn
		vsched.Quiet(func() { _, conn = open(h) })
		tag := []string{"MSG", "SND", "W/F", "EXT", "???"}[vsched.Choose(5, "tag")]
		fill := []byte{0, ' ', '=', 0xff, 0x80}[vsched.Choose(5, "filled with")]
		known := vsched.Choose(2, "audio rate is known") == 1
		vsched.Quiet(func() {
			if known {
				conn.Push(binmsg, []byte("MSG audio_rate=12000"))
				m.message(binmsg, []byte("MSG audio_rate=12000"))
			}
			for n := 0; n < 3+17+10; n++ {
				b := []byte(tag)
				for len(b) < n {
					b = append(b, fill)
				}
				b = b[:n]
				m.message(binmsg, b)
				conn.Push(binmsg, b)
			}
		})
		m.compare(tag, h, conn)
		vsched.Outcome("%d", len(m.data))
	})
	check(prop, "many messages", 0, 0, func(c *mcrun.Ctx) {
		// whatever was delivered belongs to the handler, as long as it wants
		h, m := &handler{}, &model{}
		var conn *websocket.Conn
		length := []int{1, 4, 33}[vsched.Choose(3, "samples")]
		every := []int{0, 1, 100}[vsched.Choose(3, "other messages")]
		vsched.Quiet(func() {
			_, conn = open(h)
			push := func(b []byte) {
				m.message(binmsg, b)
				conn.Push(binmsg, b)
			}
			push([]byte("MSG audio_rate=12000"))
			for i := 0; i < mcrun.Tier(c, 2000, 10000); i++ {
				samples := make([]int16, length)
				for j := range samples {
					samples[j] = int16(i*7 + j*31)
				}
				push(snd(samples...))
				if every > 0 && i%every == 0 {
					push([]byte("W/F123"))
					push(snd())
				}
				if i%10 == 0 {
					vsched.WaitQuiescent()
				}
			}
			vsched.WaitQuiescent()
		})
		m.compare(fmt.Sprintf("messages with %d values", length), h, conn)
		vsched.Outcome("%d", len(m.data))
	})
	check(prop, "all samples", 0, 0, func(c *mcrun.Ctx) {
		h, m := &handler{}, &model{}
		var conn *websocket.Conn
		high := vsched.Choose(256, "high byte")
		var samples []int16
		for low := 0; low < 256; low++ {
			samples = append(samples, int16(uint16(high<<8|low)))
		}
		vsched.Quiet(func() {
			_, conn = open(h)
			for _, b := range [][]byte{[]byte("MSG audio_rate=12000"), snd(samples...)} {
				m.message(binmsg, b)
				conn.Push(binmsg, b)
			}
		})
		m.compare(high, h, conn)
		for _, v := range h.data[0] {
			if v < -1.0001 || v > 1 {
				vsched.Fail("a sample of %v", v)
			}
		}
		vsched.Outcome("ok")
	})
}

func trim(b []byte) string {
	if len(b) > 30 {
		return fmt.Sprintf("%s... (%d bytes)", b[:3], len(b))
	}
	return string(b)
}

// --- C26 ---

func connectionJobs() {
	prop := "C26"
	broken := errors.New("connection reset")
	// what happens on the other side while the client is opened and closed
	server := func(conn *websocket.Conn, k int) {
		switch k {
		case 0: // nothing
		case 1:
			conn.Push(binmsg, []byte("MSG audio_rate=12000"))
			conn.Push(binmsg, snd(1, 2))
		case 2:
			conn.Fail(broken)
		case 3:
			conn.Push(binmsg, []byte("MSG too_busy=1"))
		case 4:
			conn.Push(binmsg, []byte("MSG badp=1"))
			conn.Fail(broken)
		}
	}
	end := func(conn *websocket.Conn) {
		vsched.WaitQuiescent()
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("still running: %s", l)
		}
		if !conn.Closed() {
			vsched.Fail("the connection is still open")
		}
	}
	for k, name := range []string{"nothing", "data", "a broken connection", "a busy server", "a bad password"} {
		k := k
		check(prop, "close with "+name, 4, 20, func(c *mcrun.Ctx) {
			h := &handler{yield: true}
			var client *kiwi.Client
			var conn *websocket.Conn
			vsched.Quiet(func() { client, conn = open(h) })
			vsched.GoNamed("server", func() { server(conn, k) })
			client.Close()
			h.after = true
			end(conn)
			client.Close()
			vsched.Outcome("closed")
		})
		check(prop, "two closes with "+name, 3, 20, func(c *mcrun.Ctx) {
			h := &handler{}
			var client *kiwi.Client
			var conn *websocket.Conn
			vsched.Quiet(func() { client, conn = open(h) })
			vsched.GoNamed("server", func() { server(conn, k) })
			vsched.GoNamed("closer", func() {
				client.Close()
				if !conn.Closed() {
					vsched.Fail("close returns before the connection is closed")
				}
			})
			client.Close()
			if !conn.Closed() {
				vsched.Fail("close returns before the connection is closed")
			}
			end(conn)
			vsched.Outcome("closed")
		})
		check(prop, "open with "+name, 3, 20, func(c *mcrun.Ctx) {
			h := &handler{}
			conn := websocket.NewConn()
			websocket.OnDial = func(string) (*websocket.Conn, error) { return conn, nil }
			vsched.GoNamed("server", func() { server(conn, k) })
			client, err := kiwi.Open("localhost:8073", "me", "secret", 7020000, 10000, h)
			if err != nil {
				if k < 2 {
					vsched.Fail("cannot connect: %v", err)
				}
				end(conn)
				vsched.Outcome("error")
				return
			}
			vsched.WaitQuiescent()
			if k >= 2 && !conn.Closed() {
				vsched.Fail("the connection is still open")
			}
			if k == 1 && (fmt.Sprint(h.connected) != "[12000]" || len(h.data) != 1) {
				vsched.Fail("connected %v with %d blocks of IQ data", h.connected, len(h.data))
			}
			client.Close()
			end(conn)
			vsched.Outcome("opened")
		})
	}
	check(prop, "the connection breaks at any moment", 0, 0, func(c *mcrun.Ctx) {
		h, m := &handler{}, &model{}
		var client *kiwi.Client
		var conn *websocket.Conn
		n := vsched.Choose(16, "messages")
		early := vsched.Choose(2, "before it is used") == 1
		vsched.Quiet(func() {
			conn = websocket.NewConn()
			websocket.OnDial = func(string) (*websocket.Conn, error) { return conn, nil }
			if early {
				conn.Breaks = n + 1
			}
			client, _ = kiwi.Open("localhost:8073", "me", "secret", 7020000, 10000, h)
			if !early {
				for i := 0; i < n; i++ {
					b := []byte("MSG audio_rate=12000")
					if i > 0 {
						b = snd(int16(i))
					}
					m.message(binmsg, b)
					conn.Push(binmsg, b)
				}
				vsched.WaitQuiescent()
				conn.Fail(broken)
			}
			vsched.WaitQuiescent()
		})
		if !early {
			m.dead = true
			m.compare(n, h, conn)
		}
		if client != nil {
			client.Close()
		}
		if !early || n < 10 {
			end(conn)
		}
		vsched.Outcome("%d", n)
	})
	check(prop, "keepalive", 0, 0, func(c *mcrun.Ctx) {
		h := &handler{}
		var conn *websocket.Conn
		var client *kiwi.Client
		seconds := vsched.Choose(30, "seconds")
		vsched.Quiet(func() {
			client, conn = open(h)
			vsched.WaitQuiescent()
			for i := 0; i < seconds; i++ {
				conn.Push(binmsg, []byte("MSG x=y"))
				vsched.Advance(time.Second)
				vsched.WaitQuiescent()
			}
			count := 0
			for _, m := range conn.Sent {
				if string(m.Data) == "SET keepalive" && m.Type == text {
					count++
				}
			}
			if count != seconds/5 {
				vsched.Fail("%d keepalive messages in %d seconds", count, seconds)
			}
			client.Close()
			n := len(conn.Sent)
			for i := 0; i < 20; i++ {
				vsched.Advance(time.Second)
				vsched.WaitQuiescent()
			}
			if len(conn.Sent) != n {
				vsched.Fail("messages after the end: %v", conn.Sent[n:])
			}
		})
		vsched.Outcome("%d", seconds)
	})
	check(prop, "keepalive for days", 0, 0, func(c *mcrun.Ctx) {
		conn := websocket.NewConn()
		messages := vsched.Choose(2, "messages") == 1
		vsched.Quiet(func() {
			var client *kiwi.Client
			client, conn = open(&handler{})
			vsched.WaitQuiescent()
			last := 0
			for i := 1; i <= mcrun.Tier(c, 20000, 70000); i++ {
				if messages {
					conn.Push(binmsg, []byte("MSG x=y"))
				}
				vsched.Advance(5 * time.Second)
				vsched.WaitQuiescent()
				if i%100 == 0 {
					count := 0
					for _, m := range conn.Sent[last:] {
						if string(m.Data) == "SET keepalive" && m.Type == text {
							count++
						}
					}
					last = len(conn.Sent)
					if count != 100 {
						vsched.Fail("%d keepalive messages in 500 seconds before second %d", count, 5*i)
					}
				}
			}
			client.Close()
		})
		vsched.Outcome("ok")
	})
	check(prop, "the setup", 0, 0, func(c *mcrun.Ctx) {
		// what the server is told, and in which order
		user := []string{"", "me", "dl1 abc/p&x=y"}[vsched.Choose(3, "user")]
		password := []string{"", "secret", "a b%c&d=e#"}[vsched.Choose(3, "password")]
		frequency := []float64{7020000, 0, 14040123.4, 28000000.9}[vsched.Choose(4, "frequency")]
		bandwidth := []int{10000, 12000, 1, 501, 0}[vsched.Choose(5, "bandwidth")]
		conn := websocket.NewConn()
		url := ""
		websocket.OnDial = func(u string) (*websocket.Conn, error) { url = u; return conn, nil }
		host, address := "localhost:8073", "ws://127.0.0.1:8073/"
		switch vsched.Choose(5, "host") {
		case 1:
			host, address = "", "ws://127.0.0.1:8073/"
		case 2:
			host, address = ":123", "ws://127.0.0.1:123/"
		case 3:
			host, address = "10.0.0.7", "ws://10.0.0.7:8073/"
		case 4:
			host, address = "[::1]:99", "ws://[::1]:99/"
		}
		client, err := kiwi.Open(host, user, password, frequency, bandwidth, &handler{})
		if err != nil {
			vsched.Fail("%q: %v", host, err)
		}
		if !strings.HasPrefix(url, address) || !strings.HasSuffix(url, "/SND") {
			vsched.Fail("%q connects to %s", host, url)
		}
		vsched.WaitQuiescent()
		sent := []string{}
		for _, m := range conn.Sent {
			sent = append(sent, string(m.Data))
		}
		all := strings.Join(sent, "\n")
		position := func(s string) int {
			for i, l := range sent {
				if strings.HasPrefix(l, s) {
					return i
				}
			}
			vsched.Fail("%q is missing: %s", s, all)
			return -1
		}
		esc := map[string]string{"": "", "secret": "secret", "a b%c&d=e#": "a+b%25c%26d%3De%23", "me": "me", "dl1 abc/p&x=y": "dl1+abc%2Fp%26x%3Dy"}
		if i := position("SET auth"); i != 0 || sent[i] != "SET auth t=kiwi p="+esc[password] {
			vsched.Fail("authentication: %s", all)
		}
		if i := position("SET ident_user="); sent[i] != "SET ident_user="+esc[user] {
			vsched.Fail("user %q: %s", user, all)
		}
		want := fmt.Sprintf("SET mod=iq low_cut=%d high_cut=%d freq=%.3f", -(bandwidth / 2), bandwidth/2, frequency/1000)
		if i := position("SET mod="); sent[i] != want {
			vsched.Fail("%s instead of %s", sent[i], want)
		}
		for _, s := range []string{"SET AR OK in=12000 out=48000", "SET agc=0", "SET compression=0", "SET squelch=0"} {
			if i, j := position(s), position("SET mod="); i > j {
				vsched.Fail("%s is too late: %s", s, all)
			}
		}
		client.Close()
		vsched.Outcome("%s", address)
	})
	check(prop, "the handler takes a long time", 0, 1, func(c *mcrun.Ctx) {
		h := &handler{}
		k := vsched.Choose(2, "message")
		pause := []time.Duration{0, 2 * time.Second, time.Minute, time.Hour}[vsched.Choose(4, "pause")]
		closes := vsched.Choose(2, "closes") + 1
		var client *kiwi.Client
		var conn *websocket.Conn
		vsched.Quiet(func() {
			client, conn = open(h)
			h.hold = []string{"connected", "IQ data"}[k]
			conn.Push(binmsg, []byte("MSG audio_rate=12000"))
			conn.Push(binmsg, snd(1, 2))
			vsched.WaitQuiescent()
		})
		if !h.held {
			vsched.Fail("nothing is delivered")
		}
		var ts []*vsched.Thread
		for i := 0; i < closes; i++ {
			ts = append(ts, vsched.GoNamed("close", func() {
				client.Close()
				if h.hold != "" {
					vsched.Fail("closed while the handler is busy for %v", pause)
				}
				h.after = true
			}))
		}
		vsched.Quiet(func() {
			vsched.WaitQuiescent()
			vsched.Advance(pause)
			vsched.WaitQuiescent()
		})
		h.release()
		vsched.WaitDone(ts...)
		end(conn)
		vsched.Outcome("ok")
	})
	check(prop, "a server that takes the messages slowly", 0, 1, func(c *mcrun.Ctx) {
		// the setup is complete, however long it takes
		conn := websocket.NewConn()
		conn.Capacity = 1
		websocket.OnDial = func(string) (*websocket.Conn, error) { return conn, nil }
		pause := []time.Duration{0, 2 * time.Second, 4 * time.Second, time.Minute, time.Hour}[vsched.Choose(5, "pause")]
		from := vsched.Choose(10, "slow from message")
		var client *kiwi.Client
		t := vsched.GoNamed("open", func() {
			var err error
			client, err = kiwi.Open("localhost:8073", "me", "secret", 7020000, 10000, &handler{})
			if err != nil {
				vsched.Fail("not opened: %v", err)
			}
		})
		vsched.Quiet(func() {
			for i := 0; i < 40; i++ {
				vsched.WaitQuiescent()
				if i >= from {
					vsched.Advance(pause)
					vsched.WaitQuiescent()
				}
				conn.Take(1)
			}
			conn.Take(1000)
			vsched.WaitDone(t)
			vsched.WaitQuiescent()
		})
		sent := []string{}
		for _, m := range conn.Sent {
			if s := string(m.Data); s != "SET keepalive" {
				sent = append(sent, s)
			}
		}
		all := strings.Join(sent, "\n")
		at := -1
		for _, s := range []string{"SET auth t=kiwi p=secret", "SET ident_user=me", "SET compression=0", "SET mod=iq low_cut=-5000 high_cut=5000 freq=7020.000"} {
			i := slices.Index(sent, s)
			if i <= at {
				vsched.Fail("%s is missing or too early after pauses of %v: %s", s, pause, all)
			}
			at = i
		}
		for _, s := range []string{"SET AR OK in=12000 out=48000", "SET agc=0", "SET squelch=0"} {
			if !strings.Contains(all, s) {
				vsched.Fail("%s is missing after pauses of %v: %s", s, pause, all)
			}
		}
		client.Close()
		end(conn)
		vsched.Outcome("ok")
	})
	check(prop, "no connection", 0, 0, func(c *mcrun.Ctx) {
		websocket.OnDial = func(string) (*websocket.Conn, error) { return nil, errors.New("refused") }
		host := []string{"localhost", "nowhere:1", "localhost:99999", "[::1", ""}[vsched.Choose(5, "host")]
		if client, err := kiwi.Open(host, "me", "secret", 7020000, 10000, &handler{}); err == nil || client != nil {
			vsched.Fail("%q: connected", host)
		}
		if p, err := kiwi.New(host, "me", "secret", 7020000, 10000, nil); err == nil || p != nil {
			vsched.Fail("%q: connected", host)
		}
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("still running: %s", l)
		}
		vsched.Outcome("refused")
	})
}

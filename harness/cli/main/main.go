// Harness for the command line arguments: all TCP addresses within bounds.
package main

import (
	"fmt"
	"net"
	"regexp"
	"strconv"
	"strings"

	"github.com/ftl/sdrainer/cli"
	"github.com/ftl/sdrainer/zzverif/mcrun"
)

func main() {
	prop := "C33"
	v4 := []string{"127.0.0.1", "0.0.0.0", "192.168.178.23", "255.255.255.255"}
	v6 := []string{"::", "::1", "fe80::1", "2001:db8:1:2:3:4:5:6", "::ffff:1.2.3.4", "2001:DB8::10"}
	defaultHosts := []string{"localhost", "127.0.0.2", "::1", "fe80::2"}
	defaultPorts := []int{0, 1, 8073, 40001, 65535}

	// examine checks arg, host and port are the expected results, "" stands for the default.
	examine := func(c *mcrun.Ctx, arg, host, port, defaultHost string, defaultPort int) {
		what := func() string { return fmt.Sprintf("%q with default %s port %d", arg, defaultHost, defaultPort) }
		c.Step()
		c.Guard(what, func() {
			addr, err := cli.ParseTCPAddrArg(arg, defaultHost, defaultPort)
			if host == "" {
				host = defaultHost
			}
			if host == "localhost" {
				host = "127.0.0.1"
			}
			p := defaultPort
			if port != "" {
				p, _ = strconv.Atoi(port)
				if p > 65535 || len(strings.TrimLeft(port, "0")) > 5 {
					p = -1
				}
			}
			ip := net.ParseIP(host)
			switch {
			case ip == nil || p < 0:
				if err == nil {
					c.Fail("accepted", "%s: accepted as %v", what(), addr)
				}
				c.Outcome("rejected")
			case err != nil:
				c.Fail("rejected", "%s: %v", what(), err)
			case !addr.IP.Equal(ip) || addr.Port != p || addr.Zone != "":
				c.Fail("address", "%s: %v instead of %s port %d", what(), addr, host, p)
			default:
				c.Outcome("accepted")
			}
		})
	}
	type form struct{ arg, host string }
	var forms []form
	for _, h := range append([]string{"", "localhost", "nowhere", "256.1.1.1", "a b"}, v4...) {
		forms = append(forms, form{h, h})
		if h != "" {
			forms = append(forms, form{"[" + h + "]", h})
		}
	}
	for _, h := range v6 {
		forms = append(forms, form{"[" + h + "]", h})
	}
	mcrun.Job(prop, "hosts and ports", func(c *mcrun.Ctx) {
		for _, f := range forms {
			for _, defaultHost := range defaultHosts {
				for _, defaultPort := range defaultPorts {
					c.State()
					examine(c, f.arg, f.host, "", defaultHost, defaultPort)
					for _, port := range []string{"", "0", "1", "80", "0080", "8073", "65535", "65536", "99999", "18446744073709551617"} {
						examine(c, f.arg+":"+port, f.host, port, defaultHost, defaultPort)
					}
					for _, port := range []string{"-1", "x", "80x", " 80", "http2x"} {
						arg := f.arg + ":" + port
						c.Step()
						c.Guard(func() string { return arg }, func() {
							if addr, err := cli.ParseTCPAddrArg(arg, defaultHost, defaultPort); err == nil {
								c.Fail("accepted", "%q: accepted as %v", arg, addr)
							}
						})
					}
				}
			}
		}
	})
	mcrun.Job(prop, "all ports", func(c *mcrun.Ctx) {
		for _, f := range forms {
			for port := 0; port <= mcrun.Tier(c, 66000, 200000); port++ {
				c.State()
				examine(c, f.arg+":"+strconv.Itoa(port), f.host, strconv.Itoa(port), "localhost", 4711)
				examine(c, f.arg, f.host, "", "::1", min(port, 65535))
			}
		}
	})
	mcrun.Job(prop, "all strings", func(c *mcrun.Ctx) {
		const alphabet = "1:[].a%-"
		valid := regexp.MustCompile(`^(\[[1:.]*\]|[1.]*|[a])(:1*)?$`)
		var next func(s string, depth int)
		next = func(s string, depth int) {
			c.State()
			if m := valid.FindStringSubmatch(s); m != nil && m[1] != "[]" {
				host, port := strings.Trim(m[1], "[]"), strings.TrimPrefix(m[2], ":")
				examine(c, s, host, port, "localhost", 4711)
			} else {
				c.Step()
				c.Guard(func() string { return fmt.Sprintf("%q", s) }, func() {
					addr, err := cli.ParseTCPAddrArg(s, "localhost", 4711)
					if err == nil && (addr == nil || addr.Port < 0 || addr.Port > 65535) {
						c.Fail("address", "%q: %v", s, addr)
					}
				})
			}
			for i := 0; depth > 0 && i < len(alphabet); i++ {
				next(s+string(alphabet[i]), depth-1)
			}
		}
		next("", mcrun.Tier(c, 6, 7))
	})
	mcrun.Main()
}

package main

import (
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
)

func die(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

// peer is the remote end: a plain socket.
type peer struct {
	c    *net.UDPConn
	from *net.UDPAddr // Who sent what was read last.
}

func newPeer() *peer {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	must(err)
	return &peer{c: c}
}

func (p *peer) port() int { return p.c.LocalAddr().(*net.UDPAddr).Port }

// read returns the next datagram, or "" if there's none.
func (p *peer) read(d time.Duration) string {
	b := make([]byte, 65536)
	p.c.SetReadDeadline(time.Now().Add(d))
	n, from, err := p.c.ReadFromUDP(b)
	if err != nil {
		return ""
	}
	p.from = from
	return string(b[:n])
}

// expect reads until a message of this kind (method or "SIP/2.0 nnn") comes.
func (p *peer) expect(kind string) string {
	end := time.Now().Add(5 * time.Second)
	for time.Now().Before(end) {
		if m := p.read(time.Until(end)); strings.HasPrefix(m, kind+" ") {
			return m
		}
	}
	die("no %s came", kind)
	return ""
}

func (p *peer) send(m string) {
	_, err := p.c.WriteToUDP([]byte(m), p.from)
	must(err)
}

// hdr returns the values of a header.
func hdrs(m, name string) (res []string) {
	for _, l := range strings.Split(strings.Split(m, "\r\n\r\n")[0], "\r\n") {
		if strings.HasPrefix(strings.ToLower(l), strings.ToLower(name)+":") {
			res = append(res, strings.TrimSpace(l[len(name)+1:]))
		}
	}
	return
}

func hdr(m, name string) string {
	if v := hdrs(m, name); len(v) > 0 {
		return v[0]
	}
	return ""
}

// reply makes a response to a request.
func (p *peer) reply(req, status string, extra ...string) string {
	s := "SIP/2.0 " + status + "\r\n"
	for _, n := range []string{"Via", "From", "Call-ID", "CSeq"} {
		for _, v := range hdrs(req, n) {
			s += n + ": " + v + "\r\n"
		}
	}
	to := hdr(req, "To")
	if !strings.Contains(to, "tag=") && !strings.HasPrefix(status, "100") {
		to += ";tag=peertag"
	}
	s += "To: " + to + "\r\n"
	s += fmt.Sprintf("Contact: <sip:127.0.0.1:%d>\r\n", p.port())
	for _, e := range extra {
		s += e + "\r\n"
	}
	return s + "Content-Length: 0\r\n\r\n"
}

// call is a phone call being followed.
type call struct {
	dl     *dialog.Dialog
	mu     sync.Mutex
	states []int
	errs   []error
	done   chan bool
}

func newCall(invite *sip.Msg) *call {
	dl, err := dialog.NewDialog(invite)
	must(err)
	c := &call{dl: dl, done: make(chan bool)}
	go func() {
		defer close(c.done)
		e, s, p := dl.OnErr, dl.OnState, dl.OnPeer
		for e != nil || s != nil || p != nil {
			select {
			case err, ok := <-e:
				if !ok {
					e = nil
				} else {
					c.mu.Lock()
					c.errs = append(c.errs, err)
					c.mu.Unlock()
				}
			case st, ok := <-s:
				if !ok {
					s = nil
				} else {
					c.mu.Lock()
					c.states = append(c.states, st)
					c.mu.Unlock()
				}
			case _, ok := <-p:
				if !ok {
					p = nil
				}
			}
		}
	}()
	return c
}

// has waits for a state.
func (c *call) has(state int) bool {
	for i := 0; i < 300; i++ {
		c.mu.Lock()
		for _, s := range c.states {
			if s == state {
				c.mu.Unlock()
				return true
			}
		}
		c.mu.Unlock()
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func (c *call) seen() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return fmt.Sprint(c.states, c.errs)
}

// ends waits for the channels to be closed.
func (c *call) ends(d time.Duration) bool {
	select {
	case <-c.done:
		return true
	case <-time.After(d):
		return false
	}
}

func inviteTo(port int) *sip.Msg {
	return &sip.Msg{
		Method:  sip.MethodInvite,
		Request: &sip.URI{Scheme: "sip", User: "bob", Host: "127.0.0.1", Port: uint16(port)},
	}
}

func (p *peer) addr() *net.UDPAddr { return p.c.LocalAddr().(*net.UDPAddr) }

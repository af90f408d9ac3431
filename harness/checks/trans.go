package checks

import (
	"bytes"
	"fmt"
	"net"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/mon"
	"verif/wire"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/util"
)

// newTransport opens a transport on the address; port 0 means any.
func newTransport(c *mon.C, ip string, port uint16) *dialog.Transport {
	tp, err := dialog.NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: ip, Port: port}})
	if err != nil {
		c.Failf("open", "NewTransport(%s:%d): %v", ip, port, err)
		return nil
	}
	if tp == nil {
		c.Failf("open", "NewTransport(%s:%d) returns nothing", ip, port)
	}
	return tp
}

// shutTransport closes it, working off what it still has to say.
func shutTransport(tp *dialog.Transport) {
	tp.Sock.Close()
	go func() {
		for range tp.C {
		}
	}()
	for range tp.E {
	}
}

func tpAddr(tp *dialog.Transport) *net.UDPAddr { return tp.Sock.LocalAddr().(*net.UDPAddr) }

// nextMsg waits for a message.
func nextMsg(c *mon.C, tp *dialog.Transport, what string) *sip.Msg {
	select {
	case m, ok := <-tp.C:
		if !ok {
			c.Failf("closed", "%s: the message channel was closed", what)
			return nil
		}
		return m
	case err := <-tp.E:
		c.Failf("error", "%s: the transport reports %v", what, err)
	case <-time.After(10 * time.Second):
		c.Failf("lost", "%s: nothing was delivered", what)
	}
	return nil
}

// withoutParams drops parameters by name.
func withoutParams(p *sip.Param, names ...string) *sip.Param {
	if p == nil {
		return nil
	}
	next := withoutParams(p.Next, names...)
	for _, n := range names {
		if strings.EqualFold(p.Name, n) {
			return next
		}
	}
	return &sip.Param{Name: p.Name, Value: p.Value, Next: next}
}

func withoutURIParam(p *sip.URIParam, name string) *sip.URIParam {
	if p == nil {
		return nil
	}
	next := withoutURIParam(p.Next, name)
	if strings.EqualFold(p.Name, name) {
		return next
	}
	return &sip.URIParam{Name: p.Name, Value: p.Value, Next: next}
}

// received is what a message looks like apart from what the receiver notes in
// the topmost Via of a request.
func received(m *sip.Msg) string {
	if m.Status == 0 && m.Via != nil {
		c := *m
		v := *m.Via
		v.Param = withoutParams(v.Param, "received", "rport")
		c.Via = &v
		m = &c
	}
	return dump(m)
}

func sendTo(s *net.UDPConn, to *net.UDPAddr, b []byte) {
	if _, err := s.WriteToUDP(b, to); err != nil {
		panic(err)
	}
}

// ---------------------------------------------------------------- T01

func checkT01(x *mon.Ctx) {
	for _, mode := range []string{"ordered", "concurrent"} {
		mode := mode
		x.Run(mode, x.N(400, 6000), 0, func(c *mon.C) { deliveryCase(c, mode == "concurrent") })
	}
	x.Run("closing", x.N(400, 4000), 0, closingCase)
	x.Run("rows", x.N(16, 100), 0, func(c *mon.C) {
		tp := newTransport(c, loop(c.R).String(), 0)
		if tp == nil {
			return
		}
		defer shutTransport(tp)
		s, err := net.DialUDP("udp4", &net.UDPAddr{IP: loop(c.R)}, tpAddr(tp))
		if err != nil {
			panic(err)
		}
		defer s.Close()
		n := c.R.Range(100, 2000)
		for i := 0; i < n; i++ {
			s.Write(noMessage(c.R))
			if i%30 == 29 {
				time.Sleep(2 * time.Millisecond)
			}
		}
		// Some of these might get lost if the queue is full.
		for i := 0; i < 6; i++ {
			s.Write([]byte("OPTIONS sip:a SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a>;tag=1\r\nTo: <sip:b>\r\nCall-ID: 1\r\nCSeq: 1 OPTIONS\r\nContent-Length: 0\r\n\r\n"))
			select {
			case m, ok := <-tp.C:
				if !ok || m == nil {
					c.Failf("closed", "the message channel was closed after %d invalid datagrams", n)
				}
				c.Seen(fmt.Sprintf("row of %d", n/100))
				return
			case err := <-tp.E:
				c.Failf("error", "the transport reports %v after %d invalid datagrams", err, n)
				return
			case <-time.After(3 * time.Second):
			}
		}
		c.Failf("lost", "nothing is delivered after %d invalid datagrams", n)
	})
}

type inDatagram struct {
	raw  []byte
	want string // rendering of the content, "" if not valid
	kind string
}

func genDatagram(r *mon.Rand, seen map[string]bool, id string) (d inDatagram) {
	m := genMsg(r)
	m.CallID = id
	m.Route = nil
	raw := []byte(m.String())
	switch {
	case r.P(0.65):
		d.kind = "valid"
		if r.P(0.15) {
			// grow it to a size of its own
			want := []int{2048, 2047, 1500, 1473, 1024, r.Range(600, 2048)}[r.IntN(6)]
			if n := want - len(raw) - len("X-Pad: \r\n"); n > 0 {
				m.XHeader = &sip.XHeader{Name: "X-Pad", Value: []byte(str(r, alnum, n, n)), Next: m.XHeader}
				raw = []byte(m.String())
				d.kind = fmt.Sprintf("valid, %d bytes", len(raw)/256*256)
			}
		}
	case r.P(0.3):
		d.kind = "bytes"
		raw = r.Bytes(r.IntN(80))
	case r.P(0.2):
		d.kind = "short"
		raw = []byte(r.Pick("", "\r\n", "\r\n\r\n", "\x00", "\x00\x00\x00\x00", "SIP/2.0"))
	case r.P(0.5):
		d.kind = "cut"
		raw = raw[:r.IntN(len(raw))]
	default:
		d.kind = "mutated"
		raw = mutate(r, raw, []byte(genMsg(r).String()))
	}
	if len(raw) > 2048 {
		raw = raw[:2048]
	}
	d.raw = raw
	if got, err := sip.ParseMsg(bytes.Clone(raw)); err == nil && got != nil {
		if got.Route != nil {
			return genDatagram(r, seen, id) // may name the receiver
		}
		d.want = received(got)
		if seen[d.want] {
			return genDatagram(r, seen, id+"x")
		}
		seen[d.want] = true
		d.kind += " +"
	}
	return
}

type keptMsg struct {
	m      *sip.Msg
	whole  string // rendering when it was delivered
	what   string // the same without the notes of the receiver
	edited bool
}

func deliveryCase(c *mon.C, concurrent bool) {
	x := c.Ctx
	r := c.R
	tp := newTransport(c, loop(r).String(), 0)
	if tp == nil {
		return
	}
	to := tpAddr(tp)
	nsrc := r.Range(1, 3)
	bursts := r.Range(1, 6)
	seen := map[string]bool{}
	plan := make([][][]inDatagram, bursts) // burst, sender
	total := 0
	for b := range plan {
		plan[b] = make([][]inDatagram, nsrc)
		for k, n := 0, r.Range(1, 20); k < n; k++ {
			s := r.IntN(nsrc)
			d := genDatagram(r, seen, fmt.Sprintf("%d-%d-%d@%s", b, k, s, str(r, alnum, 1, 8)))
			plan[b][s] = append(plan[b][s], d)
			if d.want != "" {
				total++
			}
			x.Seen("datagram " + d.kind)
		}
	}
	var src []*net.UDPConn
	for i := 0; i < nsrc; i++ {
		s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: loop(r)})
		if err != nil {
			panic(err)
		}
		defer s.Close()
		src = append(src, s)
	}
	slow, edits, busy := r.P(0.3), r.P(0.5), r.P(0.3)
	rr := mon.NewRand(c.Seed, "T01r", "reader", c.ID.Index)
	var got []keptMsg
	var n atomic.Int64
	done := make(chan error, 1)
	go func() {
		for {
			select {
			case m, ok := <-tp.C:
				if !ok {
					done <- nil
					return
				}
				if m == nil {
					c.Failf("nil", "a nil message was delivered")
					continue
				}
				if slow {
					time.Sleep(time.Duration(rr.IntN(300)) * time.Microsecond)
				}
				k := keptMsg{m: m, whole: dump(m), what: received(m)}
				got = append(got, k)
				if edits && rr.P(0.3) && len(got) > 1 {
					// the application does what it wants with a message it got
					i := rr.IntN(len(got))
					got[i].edited = true
					scribble(got[i].m)
				}
				n.Add(1)
			case err := <-tp.E:
				done <- err
				return
			}
		}
	}()
	var stop atomic.Bool
	var side sync.WaitGroup
	if busy { // the application also sends
		t := newTap(r)
		defer t.close()
		side.Add(1)
		go func() {
			defer side.Done()
			for !stop.Load() {
				tp.Send(&sip.Msg{Method: "OPTIONS", Request: &sip.URI{Scheme: "sip", Host: t.addr().IP.String(), Port: uint16(t.addr().Port)}})
				time.Sleep(100 * time.Microsecond)
			}
		}()
	}
	var order []inDatagram // what must be delivered, in order, when not concurrent
	bySender := make([][]inDatagram, nsrc)
	sentValid := 0
send:
	for b := range plan {
		if concurrent {
			var wg sync.WaitGroup
			for s := range plan[b] {
				s := s
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, d := range plan[b][s] {
						sendTo(src[s], to, d.raw)
					}
				}()
			}
			wg.Wait()
			for s := range plan[b] {
				for _, d := range plan[b][s] {
					if d.want != "" {
						bySender[s] = append(bySender[s], d)
						sentValid++
					}
				}
			}
		} else {
			q := plan[b]
			for {
				var left []int
				for s := range q {
					if len(q[s]) > 0 {
						left = append(left, s)
					}
				}
				if left == nil {
					break
				}
				s := left[r.IntN(len(left))]
				d := q[s][0]
				q[s] = q[s][1:]
				sendTo(src[s], to, d.raw)
				if d.want != "" {
					order = append(order, d)
					sentValid++
				}
			}
		}
		for end := time.Now().Add(10 * time.Second); n.Load() < int64(sentValid); time.Sleep(20 * time.Microsecond) {
			if time.Now().After(end) {
				c.Failf("lost", "%d of %d messages were delivered", n.Load(), sentValid)
				break send
			}
			if c.Failed() {
				break send
			}
		}
	}
	stop.Store(true)
	side.Wait()
	// The rest of the junk has to be read, too, before the socket is closed.
	time.Sleep(time.Millisecond)
	tp.Sock.Close()
	select {
	case err := <-done:
		if err == nil {
			c.Failf("close", "the message channel was closed before the error was reported")
		}
	case <-time.After(10 * time.Second):
		c.Failf("close", "no error after the socket was closed")
		return
	}
	afterClose(c, tp)
	if c.Failed() {
		return
	}
	if len(got) != sentValid {
		c.Failf("extra", "%d messages were delivered, %d sent", len(got), sentValid)
		return
	}
	pos := make([]int, nsrc)
	for i, k := range got {
		if !k.edited {
			if w := dump(k.m); w != k.whole {
				c.Failf("changed", "message %d of %d changed after it was delivered:\n%s", i, len(got), diff(k.whole, w))
				return
			}
		}
	}
	for i, k := range got {
		if !concurrent {
			if w, g := order[i].want, k.what; w != g {
				c.Failf("content", "message %d of %d is not the one sent:\n%s%s", i, len(got), diff(w, g), trimText(order[i].raw))
				return
			}
			continue
		}
		ok := false
		for s := range bySender {
			if pos[s] < len(bySender[s]) && bySender[s][pos[s]].want == k.what {
				pos[s]++
				ok = true
				break
			}
		}
		if !ok {
			c.Failf("order", "message %d of %d is not the next one of any sender:\n%s", i, len(got), k.whole)
			return
		}
	}
	x.Count("messages delivered", int64(len(got)))
	if c.ID.Index < 2 {
		c.Sample("delivery", "%d senders, %d bursts, %d messages, slow=%v edits=%v sending=%v", nsrc, bursts, len(got), slow, edits, busy)
	}
}

func trimText(b []byte) string {
	if len(b) > 600 {
		b = b[:600]
	}
	return fmt.Sprintf("%q", b)
}

// scribble overwrites everything a message holds.
func scribble(m *sip.Msg) {
	for h := m.XHeader; h != nil; h = h.Next {
		for i := range h.Value {
			h.Value[i] = '#'
		}
		h.Name = "Scribble"
	}
	if p, ok := m.Payload.(*sip.MiscPayload); ok {
		for i := range p.D {
			p.D[i] = '#'
		}
	}
	for v := m.Via; v != nil; v = v.Next {
		v.Host, v.Port = "scribble", 9
		for p := v.Param; p != nil; p = p.Next {
			p.Value = "scribble"
		}
	}
	for _, a := range []*sip.Addr{m.From, m.To, m.Contact, m.RecordRoute} {
		for ; a != nil; a = a.Next {
			a.Display = "scribble"
			a.Uri.Host = "scribble"
		}
	}
	if m.Request != nil {
		m.Request.Host = "scribble"
	}
	m.CallID, m.Subject, m.CSeq = "scribble", "scribble", 9
}

// afterClose checks that both channels end without anything more.
func afterClose(c *mon.C, tp *dialog.Transport) {
	for _, what := range []string{"message", "error"} {
		var ok, late bool
		if what == "message" {
			select {
			case _, ok = <-tp.C:
			case <-time.After(10 * time.Second):
				late = true
			}
		} else {
			select {
			case _, ok = <-tp.E:
			case <-time.After(10 * time.Second):
				late = true
			}
		}
		if late {
			c.Failf("open-channel", "the %s channel is still open after the socket was closed", what)
		} else if ok {
			c.Failf("after-close", "the %s channel had more to say after the error", what)
		}
	}
	if l := c.Leftover(5*time.Second, "dialog."); l != "" {
		c.Failf("leftover", "background work is left after the socket was closed\n%s", l)
	}
}

func closingCase(c *mon.C) {
	r := c.R
	tp := newTransport(c, loop(r).String(), 0)
	if tp == nil {
		return
	}
	s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: loop(r)})
	if err != nil {
		panic(err)
	}
	defer s.Close()
	waiting := r.IntN(3)
	var want []string
	for i := 0; i < waiting; i++ {
		m := genMsg(r)
		m.CallID, m.Route = fmt.Sprintf("w%d", i), nil
		raw := []byte(m.String())
		p, err := sip.ParseMsg(bytes.Clone(raw))
		if err != nil || len(raw) > 2048 {
			continue
		}
		want = append(want, received(p))
		sendTo(s, tpAddr(tp), raw)
	}
	if r.Bool() {
		time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
	}
	junkLast := r.Bool()
	if junkLast {
		sendTo(s, tpAddr(tp), r.Bytes(r.IntN(20)))
	}
	if r.P(0.3) {
		go tp.Sock.Close()
	} else {
		tp.Sock.Close()
	}
	// At most what was sent may still be delivered, then the error.
	got := 0
	for {
		select {
		case m, ok := <-tp.C:
			if !ok {
				c.Failf("close", "the message channel was closed before the error was reported")
				return
			}
			if got >= len(want) || received(m) != want[got] {
				c.Failf("content", "message %d delivered while closing is not the one sent:\n%s", got, dump(m))
				return
			}
			got++
			continue
		case err, ok := <-tp.E:
			if !ok || err == nil {
				c.Failf("close", "the error channel gave %v, %v", err, ok)
				return
			}
		case <-time.After(10 * time.Second):
			c.Failf("close", "no error after the socket was closed with %d messages waiting", len(want))
			return
		}
		break
	}
	afterClose(c, tp)
	c.Seen(fmt.Sprintf("closing: waiting %d, delivered %d, junk %v", len(want), got, junkLast))
	c.Count("messages delivered while closing", int64(got))
}

// ---------------------------------------------------------------- T02

var haveIP6 = sync.OnceValue(func() bool {
	s, err := net.ListenUDP("udp6", &net.UDPAddr{IP: net.IPv6loopback})
	if err != nil {
		return false
	}
	s.Close()
	return true
})

// tapOn is a tap on a given address; the mark comes from the same family.
func tapOn(ip net.IP) *tap {
	s, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip})
	if err != nil {
		panic(err)
	}
	m, err := net.DialUDP("udp", nil, s.LocalAddr().(*net.UDPAddr))
	if err != nil {
		panic(err)
	}
	return &tap{s: s, mark: m}
}

func bracket(ip string) string {
	if strings.Contains(ip, ":") {
		return "[" + ip + "]"
	}
	return ip
}

func checkT02(x *mon.Ctx) {
	x.Run("return", x.N(8000, 60000), 0, func(c *mon.C) {
		r := c.R
		six := haveIP6() && r.P(0.15)
		class0 := ""
		pick := func() net.IP {
			if six {
				return net.IPv6loopback
			}
			return loop(r)
		}
		tp := newTransport(c, pick().String(), 0)
		if tp == nil {
			return
		}
		defer shutTransport(tp)
		home := pick()
		if r.P(0.25) { // another program on the same host
			home = tpAddr(tp).IP
			class0 = "same host "
		}
		req := tapOn(home)
		defer req.close()
		var decoys []*tap
		decoys = append(decoys, tapOn(home)) // same host, other port
		for i := r.Range(1, 3); i > 0; i-- {
			decoys = append(decoys, tapOn(pick()))
		}
		for _, d := range decoys {
			defer d.close()
		}
		decoy := func() *net.UDPAddr { return decoys[r.IntN(len(decoys))].addr() }
		class := ""
		hop := func(top bool) string {
			var h string
			k := r.IntN(6)
			switch k {
			case 0, 1:
				h = bracket(home.String())
			case 2:
				h = bracket(decoy().IP.String())
			case 3:
				h = r.Pick("localhost", "pc33.example.test", "nat")
			case 4:
				h = r.Pick("192.0.2.7", "10.0.0.1", "[2001:db8::7]")
			default:
				h = bracket(pick().String())
			}
			p := []int{0, req.addr().Port, decoy().Port, 5060, r.Range(1, 65535)}[r.IntN(5)]
			if top && strings.Trim(h, "[]") == tpAddr(tp).IP.String() && (p == tpAddr(tp).Port || p == 0) {
				p = req.addr().Port
			}
			hp := h
			if p > 0 {
				hp += fmt.Sprintf(":%d", p)
			}
			s := "SIP/2.0/" + r.Pick("UDP", "UDP", "UDP", "TCP", "TLS") + " " + hp
			var ps []string
			if r.P(0.8) {
				ps = append(ps, "branch=z9hG4bK"+token(r))
			}
			rp := r.IntN(8)
			name := r.Pick("rport", "rport", "rport", "RPort", "RPORT")
			switch rp {
			case 0, 1:
				ps = append(ps, name)
			case 2:
				ps = append(ps, fmt.Sprintf("%s=%d", name, decoy().Port))
			case 3:
				ps = append(ps, fmt.Sprintf("%s=%d", name, req.addr().Port))
			case 4:
				ps = append(ps, name+"="+r.Pick("abc", "0", "99999", "5060x", "\"\"", "-1"))
			}
			rc := r.IntN(7)
			name = r.Pick("received", "received", "received", "Received", "RECEIVED")
			switch rc {
			case 0, 1:
				ps = append(ps, name+"="+decoy().IP.String())
			case 2:
				ps = append(ps, name+"="+home.String())
			case 3:
				ps = append(ps, name+r.Pick("", "=nowhere", "=\"1.2.3.4 5\"", "=0.0.0.0"))
			}
			if r.P(0.2) {
				ps = append(ps, "maddr="+decoy().IP.String())
			}
			if r.P(0.1) {
				ps = append(ps, "ttl="+r.Pick("1", "16"))
			}
			if r.P(0.1) { // said twice
				ps = append(ps, fmt.Sprintf("rport=%d", decoy().Port))
			}
			if r.P(0.1) {
				ps = append(ps, "received="+decoy().IP.String())
			}
			r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			for _, p := range ps {
				s += ";" + p
			}
			if top {
				class = fmt.Sprintf("host %d port %v rport %d received %d", k, p > 0, rp, rc)
			}
			return s
		}
		quoteIP6 := func(v string) string { // an address with colons is no token
			parts := strings.Split(v, ";")
			for i, p := range parts {
				if k := strings.IndexByte(p, '='); k > 0 && i > 0 && strings.Contains(p[k:], ":") {
					parts[i] = p[:k+1] + `"` + p[k+1:] + `"`
				}
			}
			return strings.Join(parts, ";")
		}
		n := r.Range(1, 4)
		method := methods[r.IntN(len(methods))]
		if method == "ACK" {
			method = "OPTIONS"
		}
		lines := []string{method + " sip:" + bracket(tpAddr(tp).IP.String()) + " SIP/2.0"}
		var vias []string
		for i := 0; i < n; i++ {
			vias = append(vias, quoteIP6(hop(i == 0)))
		}
		if r.Bool() {
			lines = append(lines, "Via: "+strings.Join(vias, r.Pick(",", ", ", ",\r\n ")))
		} else {
			for _, v := range vias {
				lines = append(lines, r.Pick("Via: ", "v: ", "VIA: ")+v)
			}
		}
		lines = append(lines, "From: <sip:a@b>;tag=1", "To: <sip:c@d>", "Call-ID: "+callIDWord(r), fmt.Sprintf("CSeq: %d %s", r.IntN(1000), method), "Max-Forwards: 70", "Content-Length: 0")
		raw := wire.Lines(lines...)
		want, err := wire.Parse(raw)
		if err != nil {
			panic(err)
		}
		sendTo(req.s, tpAddr(tp), raw)
		c.Note(string(raw))
		m := nextMsg(c, tp, string(raw))
		if m == nil {
			return
		}
		if r.P(0.2) {
			m = m.Copy()
		}
		times := r.Pick2(1, 3)
		var sent []int
		for i := 0; i < times; i++ {
			st := []int{100, 180, 200, 404, 486, 500}[r.IntN(6)]
			if err := tp.Send(dialog.NewResponse(m, st)); err != nil {
				c.Failf("send", "the response is not sent: %v\n%s", err, raw)
				return
			}
			sent = append(sent, st)
		}
		got := req.drain()
		for _, d := range decoys {
			if o := d.drain(); len(o) > 0 {
				c.Failf("astray", "the request came from %v, its response went to %v\n%s\n%s", req.addr(), d.addr(), raw, o[0])
				return
			}
		}
		if len(got) != len(sent) {
			c.Failf("missing", "%d responses were sent, %d came to %v\n%s", len(sent), len(got), req.addr(), raw)
			return
		}
		for i, b := range got {
			rsp, err := wire.Parse(b)
			if err != nil {
				c.Failf("malformed", "%v\n%q", err, b)
				return
			}
			if rsp.Status != sent[i] {
				c.Failf("status", "response %d has status %d, want %d", i, rsp.Status, sent[i])
				return
			}
			if g, w := strings.Join(viaList(rsp), "\n"), strings.Join(viaList(want), "\n"); g != w {
				c.Failf("via", "the response has the Via list\n%s\nthe request\n%s\n%s", g, w, raw)
				return
			}
		}
		c.Seen(fmt.Sprintf("%ssix %v %s hops %d", class0, six, class, n))
		c.Count("responses returned", int64(len(got)))
		if c.ID.Index < 2 {
			c.Sample("return", "from %v:\n%s\nresponse:\n%s", req.addr(), raw, got[0])
		}
	})
	// many requesters at once, answered in another order
	x.Run("many", x.N(500, 4000), 0, func(c *mon.C) {
		r := c.R
		tp := newTransport(c, loop(r).String(), 0)
		if tp == nil {
			return
		}
		defer shutTransport(tp)
		var taps []*tap
		for i := r.Range(2, 8); i > 0; i-- {
			t := newTap(r)
			defer t.close()
			taps = append(taps, t)
		}
		type ask struct {
			m    *sip.Msg
			from int
		}
		var asks []ask
		want := make([][]string, len(taps))
		same := r.Bool() // all claim the same
		for i, n := 0, r.Range(2, 20); i < n; i++ {
			k := r.IntN(len(taps))
			claim := taps[r.IntN(len(taps))].addr().String()
			if same {
				claim = taps[0].addr().String()
			}
			id := fmt.Sprintf("ask%d", i)
			raw := wire.Lines("OPTIONS sip:x SIP/2.0", "Via: SIP/2.0/UDP "+claim+";branch=z9hG4bK"+id+r.Pick("", ";rport"), "From: <sip:a@b>;tag=1", "To: <sip:c@d>",
				"Call-ID: "+id, "CSeq: 1 OPTIONS", "Max-Forwards: 70", "Content-Length: 0")
			sendTo(taps[k].s, tpAddr(tp), raw)
			m := nextMsg(c, tp, string(raw))
			if m == nil {
				return
			}
			asks = append(asks, ask{m, k})
		}
		r.Shuffle(len(asks), func(i, j int) { asks[i], asks[j] = asks[j], asks[i] })
		for _, a := range asks {
			if err := tp.Send(dialog.NewResponse(a.m, 200)); err != nil {
				c.Failf("send", "the response is not sent: %v", err)
				return
			}
			want[a.from] = append(want[a.from], a.m.CallID)
		}
		for k, t := range taps {
			var g []string
			for _, b := range t.drain() {
				m, err := wire.Parse(b)
				if err != nil {
					c.Failf("malformed", "%v\n%q", err, b)
					return
				}
				g = append(g, m.Get("call-id"))
			}
			if fmt.Sprint(g) != fmt.Sprint(want[k]) {
				c.Failf("astray", "requester %d got the responses %v, want %v", k, g, want[k])
				return
			}
		}
		c.Count("responses returned", int64(len(asks)))
		c.Seen(fmt.Sprintf("many %d %d %v", len(taps), len(asks), same))
	})
}

func callIDWord(r *mon.Rand) string { return str(r, alnum, 4, 12) + r.Pick("", "@host") }

// ---------------------------------------------------------------- T03

func or5060(p uint16) uint16 {
	if p == 0 {
		return 5060
	}
	return p
}

func uriText(u *sip.URI) string { return u.String() }

func addrTexts(a *sip.Addr) (out []string) {
	for ; a != nil; a = a.Next {
		s := uriText(a.Uri) + " " + fmt.Sprintf("%q", a.Display)
		for p := a.Param; p != nil; p = p.Next {
			s += fmt.Sprintf(";%s=%q", p.Name, p.Value)
		}
		out = append(out, s)
	}
	return
}

// routeHop makes a route entry.
func routeHop(r *mon.Rand, ip string, port uint16, lr bool) *sip.Addr {
	u := &sip.URI{Scheme: "sip", Host: ip, Port: port}
	if r.P(0.4) {
		u.User = r.Pick("proxy", "a b", "edge;x")
	}
	if lr {
		u.Param = &sip.URIParam{Name: r.Pick("lr", "lr", "lr", "LR"), Value: r.Pick("", "", "on", "true")}
	}
	if r.P(0.3) {
		u.Param = &sip.URIParam{Name: r.Pick("transport", "ftag", "lrx"), Value: r.Pick("udp", "lr"), Next: u.Param}
	}
	a := &sip.Addr{Uri: u}
	if r.P(0.2) {
		a.Display = "A \"proxy\""
	}
	if r.P(0.2) {
		a.Param = &sip.Param{Name: r.Pick("x", "lr"), Value: r.Pick("", "y z")}
	}
	return a
}

func listOf(as []*sip.Addr) *sip.Addr {
	var head *sip.Addr
	for i := len(as) - 1; i >= 0; i-- {
		c := *as[i]
		c.Next = head
		head = &c
	}
	return head
}

type routed struct {
	host    string
	port    uint16
	request string
	routes  []string
	how     string
}

// routeModel says where a request goes and what it looks like then.
func routeModel(selfHost string, selfPort uint16, req *sip.URI, route []*sip.Addr) (o routed) {
	o.how = "target"
	if len(route) > 0 && route[0].Uri.Host == selfHost && or5060(route[0].Uri.Port) == selfPort {
		route = route[1:]
		o.how = "own, target"
	}
	o.request = uriText(req)
	o.host, o.port = req.Host, or5060(req.Port)
	if len(route) == 0 {
		return
	}
	first := route[0].Uri
	o.host, o.port = first.Host, or5060(first.Port)
	o.how += fmt.Sprintf(", %d routes", len(route))
	lr := false
	for p := first.Param; p != nil; p = p.Next {
		lr = lr || strings.EqualFold(p.Name, "lr")
	}
	if lr {
		o.routes = addrTexts(listOf(route))
		return
	}
	o.how += ", strict"
	o.request = uriText(first)
	o.routes = append(addrTexts(listOf(route[1:])), uriText(req)+` ""`)
	return
}

func genMethod(r *mon.Rand) string {
	for {
		if m := methods[r.IntN(len(methods))]; m != "REGISTER" {
			return m
		}
	}
}

func checkT03(x *mon.Ctx) {
	// the function alone, with any hosts
	x.Run("model", x.N(40000, 600000), 0, func(c *mon.C) {
		r := c.R
		hosts := []string{ip4(r), hostName(r), ip6(r), ip4(r)}
		ports := []uint16{0, 5060, uint16(r.Range(1, 65535))}
		h := func() string { return hosts[r.IntN(len(hosts))] }
		p := func() uint16 { return ports[r.IntN(len(ports))] }
		self := &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: h(), Port: or5060(p()), Param: &sip.URIParam{Name: "transport", Value: "udp"}}}
		via := &sip.Via{Host: self.Uri.Host, Port: self.Uri.Port}
		req := routeHop(r, h(), p(), r.P(0.2)).Uri
		var route []*sip.Addr
		for n := r.IntN(5); n > 0; n-- {
			route = append(route, routeHop(r, h(), p(), r.P(0.6)))
		}
		// The route set of a call goes into one request after the other.
		set := listOf(route)
		for k := r.IntN(3); k >= 0; k-- {
			req := &sip.URI{Scheme: "sip", User: str(r, alnum, 1, 6), Host: h(), Port: p()}
			want := routeModel(self.Uri.Host, self.Uri.Port, req, route)
			m := &sip.Msg{Method: genMethod(r), Request: req, Route: set, Via: via.Copy()}
			before := fmt.Sprint(uriText(req), addrTexts(listOf(route)))
			host, port, err := dialog.RouteMessage(via, self, m)
			if err != nil || host != want.host || or5060(port) != want.port || uriText(m.Request) != want.request || fmt.Sprint(addrTexts(m.Route)) != fmt.Sprint(want.routes) {
				c.Failf("shared", "self %s:%d, %s goes to %s:%d (%v) as %s %v, want %s:%d as %s %v; %d more to go with these routes", self.Uri.Host, self.Uri.Port, before, host, port, err,
					uriText(m.Request), addrTexts(m.Route), want.host, want.port, want.request, want.routes, k)
				return
			}
		}
		want := routeModel(self.Uri.Host, self.Uri.Port, req, route)
		m := &sip.Msg{Method: genMethod(r), Request: req, Route: listOf(route), Via: via.Copy()}
		before := fmt.Sprint(uriText(req), addrTexts(m.Route))
		host, port, err := dialog.RouteMessage(via, self, m)
		if err != nil {
			c.Failf("error", "%s: %v", before, err)
			return
		}
		if host != want.host || or5060(port) != want.port {
			c.Failf("destination", "self %s:%d, %s goes to %s:%d, want %s:%d", self.Uri.Host, self.Uri.Port, before, host, port, want.host, want.port)
			return
		}
		if g := uriText(m.Request); g != want.request {
			c.Failf("target", "self %s:%d, %s gets the target %s, want %s", self.Uri.Host, self.Uri.Port, before, g, want.request)
			return
		}
		if g := addrTexts(m.Route); fmt.Sprint(g) != fmt.Sprint(want.routes) {
			c.Failf("routes", "self %s:%d, %s gets the routes %v, want %v", self.Uri.Host, self.Uri.Port, before, g, want.routes)
			return
		}
		c.Seen("model " + want.how)
	})
	x.Run("address", x.N(300, 3000), 0, func(c *mon.C) {
		dns.start()
		r := c.R
		for k := 0; k < 20; k++ {
			name := fmt.Sprintf("h%d-%s.r%d.route.test", k, str(r, "abcdefgh", 1, 5), c.ID.Index)
			ip := ip4(r)
			p := []uint16{0, 5060, uint16(r.Range(1, 65535))}[r.IntN(3)]
			srv := r.Bool()
			host := name
			var want []string
			kind := r.IntN(4)
			switch kind {
			case 0:
				host = ip
				want = []string{net.JoinHostPort(ip, fmt.Sprint(or5060(p)))}
			case 1:
				host = ip6(r)
				want = []string{net.JoinHostPort(host, fmt.Sprint(or5060(p)))}
			case 2:
				dns.setA(name, net.ParseIP(ip))
				want = []string{net.JoinHostPort(ip, fmt.Sprint(or5060(p)))}
			case 3:
				dns.setA(name, net.ParseIP(ip))
				var recs []srvRec
				for i, n := 0, r.Pick2(r.Range(1, 4), r.Range(1, 14)); i < n; i++ {
					recs = append(recs, srvRec{prio: 10 * (i + 1), port: r.Range(1, 65535), target: fmt.Sprintf("s%d.%s", i, name)})
				}
				if p == 0 && srv {
					for _, e := range recs {
						want = append(want, fmt.Sprintf("%s.:%d", e.target, e.port))
					}
				} else {
					want = []string{net.JoinHostPort(ip, fmt.Sprint(or5060(p)))}
				}
				q := append([]srvRec{}, recs...)
				r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
				dns.setSRV(name, q)
			}
			routes, err := dialog.RouteAddress(host, p, srv)
			if err != nil {
				c.Failf("address", "RouteAddress(%s, %d, %v): %v", host, p, srv, err)
				return
			}
			var got []string
			for ; routes != nil; routes = routes.Next {
				got = append(got, routes.Address)
			}
			norm := func(s []string) string { return strings.ReplaceAll(strings.Join(s, " "), ".:", ":") }
			if norm(got) != norm(want) {
				c.Failf("address", "RouteAddress(%s, %d, %v) = %v, want %v", host, p, srv, got, want)
				return
			}
			c.Seen(fmt.Sprintf("address %d %v %v", kind, p == 0, srv))
		}
		dns.forget(fmt.Sprintf(".r%d.route.test", c.ID.Index))
	})
	// through a transport
	x.Run("sent", x.N(5000, 40000), 0, func(c *mon.C) {
		r := c.R
		var tp *dialog.Transport
		if r.P(0.3) {
			tp = newTransport(c, loop(r).String(), 5060)
		} else {
			tp = newTransport(c, loop(r).String(), 0)
		}
		if tp == nil {
			return
		}
		defer shutTransport(tp)
		self := tpAddr(tp)
		var taps []*tap
		for i := r.Range(2, 4); i > 0; i-- {
			t := newTap(r)
			if r.P(0.4) {
				ip := loop(r)
				if s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: ip, Port: 5060}); err == nil {
					t.close()
					m, err := net.DialUDP("udp4", nil, s.LocalAddr().(*net.UDPAddr))
					if err != nil {
						panic(err)
					}
					t = &tap{s: s, mark: m}
				}
			}
			defer t.close()
			taps = append(taps, t)
		}
		hop := func(lr bool) *sip.Addr {
			t := taps[r.IntN(len(taps))].addr()
			p := uint16(t.Port)
			if p == 5060 && r.Bool() {
				p = 0
			}
			return routeHop(r, t.IP.String(), p, lr)
		}
		req := hop(r.P(0.1)).Uri
		var route []*sip.Addr
		for n := r.IntN(4); n > 0; n-- {
			route = append(route, hop(r.P(0.6)))
		}
		if r.P(0.3) {
			p := uint16(self.Port)
			if p == 5060 && r.Bool() {
				p = 0
			}
			route = append([]*sip.Addr{routeHop(r, self.IP.String(), p, r.P(0.8))}, route...)
		} else if r.P(0.2) { // the same host is not enough
			t := tapOn(self.IP)
			defer t.close()
			taps = append(taps, t)
			route = append([]*sip.Addr{routeHop(r, self.IP.String(), uint16(t.addr().Port), r.P(0.8))}, route...)
		}
		want := routeModel(self.IP.String(), uint16(self.Port), req, route)
		m := &sip.Msg{Method: genMethod(r), Request: req, Route: listOf(route)}
		before := fmt.Sprint(uriText(req), addrTexts(m.Route))
		if err := tp.Send(m); err != nil {
			c.Failf("error", "%s: %v", before, err)
			return
		}
		total := 0
		for _, t := range taps {
			for _, b := range t.drain() {
				total++
				if t.addr().IP.String() != want.host || t.addr().Port != int(want.port) {
					c.Failf("destination", "self %v, %s goes to %v, want %s:%d\n%s", self, before, t.addr(), want.host, want.port, b)
					return
				}
				g, err := sip.ParseMsg(bytes.Clone(b))
				if err != nil {
					c.Failf("malformed", "%v\n%s", err, b)
					return
				}
				if s := uriText(g.Request); s != want.request {
					c.Failf("target", "self %v, %s gets the target %s, want %s", self, before, s, want.request)
					return
				}
				if s := addrTexts(g.Route); fmt.Sprint(s) != fmt.Sprint(want.routes) {
					c.Failf("routes", "self %v, %s gets the routes %v, want %v", self, before, s, want.routes)
					return
				}
			}
		}
		if total != 1 {
			c.Failf("missing", "self %v, %s: %d packets, want one to %s:%d", self, before, total, want.host, want.port)
			return
		}
		c.Seen("sent " + want.how + fmt.Sprint(want.port == 5060))
		if c.ID.Index < 3 {
			c.Sample("sent", "self %v, %s goes to %s:%d as %s %v", self, before, want.host, want.port, want.request, want.routes)
		}
	})
	// what a receiver makes of it
	x.Run("received", x.N(5000, 40000), 0, func(c *mon.C) {
		r := c.R
		var tp *dialog.Transport
		if r.P(0.4) {
			tp = newTransport(c, loop(r).String(), 5060)
		} else {
			tp = newTransport(c, loop(r).String(), 0)
		}
		if tp == nil {
			return
		}
		defer shutTransport(tp)
		src := newTap(r)
		defer src.close()
		self := tpAddr(tp)
		selfPort := func() uint16 {
			if self.Port == 5060 && r.Bool() {
				return 0
			}
			return uint16(self.Port)
		}
		other := func(lr bool) *sip.Addr {
			switch r.IntN(4) {
			case 0: // the same host, another port
				p := uint16(r.Range(1, 65535))
				if int(p) == self.Port {
					p ^= 1
				}
				return routeHop(r, self.IP.String(), p, lr)
			case 1: // another host, the same port
				return routeHop(r, ip4(r), uint16(self.Port), lr)
			case 2:
				if self.Port != 5060 {
					return routeHop(r, self.IP.String(), 0, lr)
				}
			}
			return routeHop(r, host(r), port(r), lr)
		}
		var req *sip.Addr
		var route []*sip.Addr
		var wantReq string
		var wantRoutes []string
		kind := r.IntN(5)
		if kind != 3 {
			for n := r.IntN(4); n > 0; n-- {
				route = append(route, other(r.P(0.7)))
			}
		}
		switch kind {
		case 0: // a strict router put our own address into the target
			for len(route) == 0 || r.P(0.3) {
				route = append(route, other(r.Bool()))
			}
			req = routeHop(r, self.IP.String(), selfPort(), true)
			last := route[len(route)-1]
			wantReq = uriText(last.Uri)
			wantRoutes = addrTexts(listOf(route[:len(route)-1]))
		case 1: // a route to ourselves
			req = other(r.Bool())
			wantReq = uriText(req.Uri)
			for r.P(0.25) { // the request is to come back to us, so only the first one is used up
				route = append([]*sip.Addr{routeHop(r, self.IP.String(), selfPort(), r.P(0.8))}, route...)
			}
			wantRoutes = addrTexts(listOf(route))
			route = append([]*sip.Addr{routeHop(r, self.IP.String(), selfPort(), r.P(0.8))}, route...)
		case 2: // we are the target, but without lr
			req = routeHop(r, self.IP.String(), selfPort(), false)
			wantReq, wantRoutes = uriText(req.Uri), addrTexts(listOf(route))
		case 3: // we are the target, there is no route
			req = routeHop(r, self.IP.String(), selfPort(), true)
			wantReq = uriText(req.Uri)
		case 4:
			req = other(r.Bool())
			wantReq, wantRoutes = uriText(req.Uri), addrTexts(listOf(route))
		}
		m := &sip.Msg{Method: genMethod(r), VersionMajor: 2, Request: req.Uri, Route: listOf(route), From: genAddr(r), To: genAddr(r), Via: genVia(r, 1, 2), CallID: callID(r), CSeq: 1, MaxForwards: 70}
		m.CSeqMethod = m.Method
		raw := []byte(m.String())
		sendTo(src.s, self, raw)
		g := nextMsg(c, tp, string(raw))
		if g == nil {
			return
		}
		if s := uriText(g.Request); s != wantReq {
			c.Failf("target", "at %v, a request is delivered with the target %s, want %s\n%s", self, s, wantReq, raw)
			return
		}
		if s := addrTexts(g.Route); fmt.Sprint(s) != fmt.Sprint(wantRoutes) {
			c.Failf("routes", "at %v, a request is delivered with the routes %v, want %v\n%s", self, s, wantRoutes, raw)
			return
		}
		c.Seen(fmt.Sprintf("received %d routes %d port %v", kind, len(route), self.Port == 5060))
	})
	// from sender to receiver over one or two strict or loose hops
	x.Run("journey", x.N(1500, 10000), 0, func(c *mon.C) {
		r := c.R
		var tps []*dialog.Transport
		for i := r.Range(2, 5); i > 0; i-- {
			tp := newTransport(c, loop(r).String(), 0)
			if tp == nil {
				return
			}
			defer shutTransport(tp)
			tps = append(tps, tp)
		}
		// Proxies take the message and send it on.
		var route []*sip.Addr
		for _, tp := range tps[1 : len(tps)-1] {
			a := tpAddr(tp)
			route = append(route, routeHop(r, a.IP.String(), uint16(a.Port), true))
		}
		end := tpAddr(tps[len(tps)-1])
		req := routeHop(r, end.IP.String(), uint16(end.Port), false).Uri
		target := uriText(req)
		m := &sip.Msg{Method: genMethod(r), Request: req, Route: listOf(route)}
		for i, tp := range tps[:len(tps)-1] {
			if err := tp.Send(m); err != nil {
				c.Failf("error", "hop %d: %v", i, err)
				return
			}
			if m = nextMsg(c, tps[i+1], fmt.Sprintf("hop %d of %s %v", i, target, addrTexts(listOf(route)))); m == nil {
				return
			}
			if i+1 < len(tps)-1 {
				if g := addrTexts(m.Route); len(g) != len(route)-i-1 {
					c.Failf("routes", "hop %d has the routes %v of %v", i+1, g, addrTexts(listOf(route)))
					return
				}
			}
		}
		if g := uriText(m.Request); g != target || m.Route != nil {
			c.Failf("target", "the target %s arrives as %s with routes %v", target, g, addrTexts(m.Route))
			return
		}
		c.Seen(fmt.Sprintf("journey %d", len(tps)))
	})
}

// ---------------------------------------------------------------- T04

// idSet is a set of identifiers that must not repeat.
type idSet struct {
	mu sync.Mutex
	m  map[string]string
}

func (s *idSet) add(c *mon.C, kind, id string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m == nil {
		s.m = map[string]string{}
	}
	k := kind + " " + id
	if at, ok := s.m[k]; ok {
		c.FailAll("repeated", "the generated %s %q is also that of %s (now %s/%d)", kind, id, at, c.ID.Part, c.ID.Index)
		return false
	}
	s.m[k] = fmt.Sprintf("%s/%d", c.ID.Part, c.ID.Index)
	return true
}

var (
	branchRE = regexp.MustCompile(`^z9hG4bK[-A-Za-z0-9.!%*_+` + "`" + `'~]+$`)
	tokenRE  = regexp.MustCompile(`^[-A-Za-z0-9.!%*_+` + "`" + `'~]+$`)
	callRE   = regexp.MustCompile(`^[-A-Za-z0-9.!%*_+` + "`" + `'~()<>:\\"/\[\]?{}]+(@[-A-Za-z0-9.!%*_+` + "`" + `'~()<>:\\"/\[\]?{}]+)?$`)
)

// completeRequest checks that what was sent is a valid request.
func completeRequest(c *mon.C, b []byte) *wire.Msg {
	m, err := wire.Parse(b)
	if err != nil {
		c.Failf("malformed", "%v\n%s", err, b)
		return nil
	}
	for _, h := range []string{"to", "from", "call-id", "cseq", "max-forwards", "content-length"} {
		if n := len(m.All(h)); n != 1 {
			c.Failf("incomplete", "%d %s headers\n%s", n, h, b)
			return nil
		}
	}
	if m.Method == "" || m.Version != "SIP/2.0" || m.URI == "" {
		c.Failf("incomplete", "bad request line\n%s", b)
		return nil
	}
	if len(m.List("via")) == 0 || len(m.List("contact")) == 0 {
		c.Failf("incomplete", "no Via or no Contact\n%s", b)
		return nil
	}
	if len(m.List("from")) != 1 || len(m.List("to")) != 1 {
		c.Failf("incomplete", "several addresses in From or To\n%s", b)
		return nil
	}
	tags := 0
	for _, p := range m.Addr("from").Params {
		if strings.EqualFold(p.Name, "tag") {
			tags++
		}
	}
	if tags != 1 {
		c.Failf("incomplete", "%d tags in From\n%s", tags, b)
		return nil
	}
	br := 0
	for _, p := range m.Vias()[0].Params {
		if strings.EqualFold(p.Name, "branch") {
			br++
		}
	}
	if br != 1 {
		c.Failf("incomplete", "%d branches in the topmost Via\n%s", br, b)
		return nil
	}
	if n, meth := m.CSeq(); n < 0 || meth == "" {
		c.Failf("incomplete", "CSeq %q\n%s", m.Get("cseq"), b)
		return nil
	}
	if m.Get("call-id") == "" {
		c.Failf("incomplete", "no Call-ID\n%s", b)
		return nil
	}
	return m
}

func checkT04(x *mon.Ctx) {
	ids := &idSet{}
	parts := []string{"To", "From", "From tag", "Via", "Via branch", "Contact", "CallID", "CSeq", "CSeqMethod", "MaxForwards", "UserAgent"}
	var mu sync.Mutex
	shared := map[int]*sharedTransport{}
	x.Run("subsets", x.N(8192, 65536), 8, func(c *mon.C) {
		r := c.R
		set := map[string]bool{}
		name := ""
		for i, p := range parts {
			if c.ID.Index>>i&1 == 1 {
				set[p] = true
				name += " " + p
			}
		}
		// Some transports serve many requests, so that one request could show
		// in another.
		var st *sharedTransport
		if r.P(0.5) {
			st = openShared(c)
			if st == nil {
				return
			}
			defer st.close()
		} else {
			mu.Lock()
			k := c.ID.Index % 16
			if st = shared[k]; st == nil {
				if st = openShared(c); st == nil {
					mu.Unlock()
					return
				}
				shared[k] = st
			}
			mu.Unlock()
		}
		st.mu.Lock()
		defer st.mu.Unlock()
		tp := st.tp
		t := newTap(r)
		defer t.close()
		m := genMsg(r)
		for m.Status != 0 {
			m = genMsg(r)
		}
		m.VersionMajor, m.VersionMinor = 2, 0
		if r.P(0.1) {
			m.VersionMajor = 0 // the default
		}
		to := t.addr()
		dest := routeHop(r, to.IP.String(), uint16(to.Port), false).Uri
		if m.Method != "REGISTER" && r.P(0.3) {
			m.Route = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: dest.Host, Port: dest.Port, Param: &sip.URIParam{Name: "lr"}}, Next: genAddrs(r, 0, 2)}
		} else {
			m.Route = nil
			m.Request = dest
		}
		m.CSeqMethod = m.Method
		if !set["To"] {
			m.To = nil
		}
		m.From.Param = withoutParams(m.From.Param, "tag")
		if !set["From"] {
			m.From = nil
		} else if set["From tag"] {
			m.From.Param = &sip.Param{Name: r.Pick("tag", "tag", "Tag"), Value: token(r), Next: m.From.Param}
		}
		m.Via.Param = withoutParams(m.Via.Param, "branch")
		if !set["Via"] {
			m.Via = nil
		} else if set["Via branch"] {
			m.Via.Param = &sip.Param{Name: r.Pick("branch", "branch", "Branch"), Value: token(r), Next: m.Via.Param}
		}
		m.Contact = nil
		if set["Contact"] {
			m.Contact = genAddrs(r, 1, 3)
			for a := m.Contact; a != nil; a = a.Next {
				a.Param = withoutParams(a.Param, "tag") // no parameter of a Contact
			}
		}
		if !set["CallID"] {
			m.CallID = ""
		}
		m.CSeq = r.Range(1, 1<<31-1)
		if !set["CSeq"] {
			m.CSeq = 0
		}
		if !set["CSeqMethod"] {
			m.CSeqMethod = ""
		} else if r.P(0.3) {
			m.CSeqMethod = token(r)
		}
		m.MaxForwards = r.Range(2, 255)
		if !set["MaxForwards"] {
			m.MaxForwards = 0
		}
		m.UserAgent = ""
		if set["UserAgent"] {
			m.UserAgent = text(r)
		}
		want := m.Copy()
		if m.Payload != nil {
			want.Payload = m.Payload
		}
		tpWas := dump(tp.Via) + dump(tp.Contact)
		c.Note(name)
		if err := tp.Send(m); err != nil {
			c.Failf("error", "a request with%s preset is not sent: %v\n%s", name, err, want)
			return
		}
		if g := dump(tp.Via) + dump(tp.Contact); g != tpWas {
			c.Failf("transport", "sending changed the transport's own addresses\n%s", diff(tpWas, g))
			return
		}
		got := t.drain()
		if len(got) != 1 {
			c.Failf("missing", "%d packets were sent for a request with%s preset", len(got), name)
			return
		}
		b := got[0]
		wm := completeRequest(c, b)
		if wm == nil {
			return
		}
		g, err := sip.ParseMsg(bytes.Clone(b))
		if err != nil {
			c.Failf("malformed", "%v\n%s", err, b)
			return
		}
		bad := func(what, f string, a ...any) {
			c.Failf("generated-"+what, "preset%s: %s\n%s", name, fmt.Sprintf(f, a...), b)
		}
		// What was generated is checked, then taken over into the expectation.
		tpa := tpAddr(tp)
		if !set["To"] {
			if uriText(g.To.Uri) != uriText(want.Request) || g.To.Param != nil {
				bad("to", "To is %v", g.To)
			}
			want.To = g.To
		}
		if !set["Contact"] {
			if g.Contact.Next != nil || g.Contact.Uri.Host != tpa.IP.String() || int(g.Contact.Uri.Port) != tpa.Port {
				bad("contact", "Contact is %v, the transport listens on %v", g.Contact, tpa)
			}
			k := g.Contact.Copy()
			if p := k.Uri.Param.Get("transport"); p == nil || p.Value != "udp" {
				bad("contact", "Contact is %v", g.Contact)
			} else if k.Uri.Param = withoutURIParam(k.Uri.Param, "transport"); contactText(k) != st.given {
				bad("contact", "Contact is %v, the transport was opened with %s", g.Contact, st.given)
			}
			want.Contact = g.Contact
		}
		tag := g.From.Param.Get("tag")
		if !(set["From"] && set["From tag"]) {
			if tag == nil || !tokenRE.MatchString(tag.Value) {
				bad("tag", "From is %v", g.From)
			} else {
				ids.add(c, "tag", tag.Value)
			}
		}
		if !set["From"] {
			if g.From.Next != nil || g.From.Uri.Host != g.Contact.Uri.Host || withoutParams(g.From.Param, "tag") != nil && !set["Contact"] {
				bad("from", "From is %v, Contact %v", g.From, g.Contact)
			}
			if g.From.Uri.Param.Get("transport") != nil { // belongs in no From (RFC 3261 19.1.1)
				bad("from", "From is %v", g.From)
			}
			want.From = g.From
		} else if !set["From tag"] {
			g.From.Param = withoutParams(g.From.Param, "tag")
		}
		if !(set["Via"] && set["Via branch"]) {
			br := g.Via.Param.Get("branch")
			if br == nil || !branchRE.MatchString(br.Value) {
				bad("branch", "Via is %+v", *g.Via)
			} else {
				ids.add(c, "branch", br.Value)
			}
		}
		if !set["Via"] {
			v := wm.Vias()
			if len(v) != 1 || v[0].Host != tpa.IP.String() || v[0].Port != tpa.Port || !strings.EqualFold(v[0].Proto, "SIP/2.0/UDP") || len(v[0].Params) != 1 {
				bad("via", "Via is %+v, the transport listens on %v", v, tpa)
			}
			want.Via = g.Via
		} else if !set["Via branch"] {
			g.Via.Param = withoutParams(g.Via.Param, "branch")
		}
		if !set["CallID"] {
			if !callRE.MatchString(g.CallID) {
				bad("callid", "Call-ID is %q", g.CallID)
			}
			ids.add(c, "Call-ID", g.CallID)
			want.CallID = g.CallID
		}
		if !set["CSeq"] {
			want.CSeq = g.CSeq
		}
		if !set["CSeqMethod"] {
			want.CSeqMethod = m.Method
		}
		if set["MaxForwards"] {
			want.MaxForwards--
		} else {
			want.MaxForwards = 69
		}
		if !set["UserAgent"] {
			want.UserAgent = g.UserAgent
		}
		want.VersionMajor = 2
		if ok, d := sameMsg(want, g); !ok {
			c.Failf("changed", "what was preset (%s) is not what was sent:\n%s\n%s", name, d, b)
			return
		}
		if r.P(0.5) {
			scribble(m) // must not show in later requests
		}
		c.Seen("preset" + name)
		if c.ID.Index < 2 || c.ID.Index == 77 {
			c.Sample("subsets", "preset:%s\n%s", name, b)
		}
	})
	// Several threads that send through one transport do not mix up what they
	// send.
	x.Run("concurrent", x.N(150, 3000), 0, func(c *mon.C) {
		r := c.R
		st := openShared(c)
		if st == nil {
			return
		}
		defer st.close()
		type job struct {
			m, want *sip.Msg
			bare    bool
		}
		jobs := make([][]job, r.Range(2, 4))
		taps := make([]*tap, len(jobs))
		for i := range jobs {
			taps[i] = newTap(r)
			defer taps[i].close()
			to := taps[i].addr()
			for n := r.Range(1, 12); n > 0; n-- {
				m := genMsg(r)
				for m.Status != 0 {
					m = genMsg(r)
				}
				m.VersionMajor, m.VersionMinor = 2, 0
				m.Request, m.Route = routeHop(r, to.IP.String(), uint16(to.Port), false).Uri, nil
				m.CSeqMethod, m.CSeq, m.MaxForwards = m.Method, r.Range(1, 1<<31-1), r.Range(2, 255)
				m.UserAgent = "ua " + token(r)
				if m.Contact == nil {
					m.Contact = genAddrs(r, 1, 2)
				}
				for a := m.Contact; a != nil; a = a.Next {
					a.Param = withoutParams(a.Param, "tag") // no parameter of a Contact
				}
				m.From.Param = &sip.Param{Name: "tag", Value: token(r), Next: withoutParams(m.From.Param, "tag")}
				m.Via.Param = &sip.Param{Name: "branch", Value: token(r), Next: withoutParams(m.Via.Param, "branch")}
				j := job{m: m, bare: r.P(0.3)}
				if j.bare {
					m.Via, m.From, m.To, m.Contact, m.CallID, m.CSeq, m.UserAgent = nil, nil, nil, nil, "", 0, ""
				}
				j.want = m.Copy()
				if m.Payload != nil {
					j.want.Payload = m.Payload
				}
				jobs[i] = append(jobs[i], j)
			}
		}
		var wg sync.WaitGroup
		for _, q := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, j := range q {
					if err := st.tp.Send(j.m); err != nil {
						c.Failf("error", "a request is not sent: %v\n%s", err, j.want)
					}
				}
			}()
		}
		wg.Wait()
		tpa := tpAddr(st.tp)
		for i, q := range jobs {
			got := taps[i].drain()
			if len(got) != len(q) {
				c.Failf("missing", "%d packets were sent for %d requests of one of %d threads", len(got), len(q), len(jobs))
				return
			}
			for k, j := range q {
				b := got[k]
				wm := completeRequest(c, b)
				if wm == nil {
					return
				}
				g, err := sip.ParseMsg(bytes.Clone(b))
				if err != nil {
					c.Failf("malformed", "%v\n%s", err, b)
					return
				}
				want := j.want
				want.MaxForwards--
				if j.bare {
					v := wm.Vias()
					if len(v) != 1 || v[0].Host != tpa.IP.String() || v[0].Port != tpa.Port {
						c.Failf("generated-via", "Via is %+v, the transport listens on %v", v, tpa)
						return
					}
					ids.add(c, "branch", v[0].Branch())
					ids.add(c, "tag", g.From.Param.Get("tag").Value)
					ids.add(c, "Call-ID", g.CallID)
					if uriText(g.To.Uri) != uriText(want.Request) || g.To.Param != nil {
						c.Failf("generated-to", "To is %v\n%s", g.To, b)
						return
					}
					want.Via, want.From, want.To, want.Contact, want.CallID, want.CSeq, want.UserAgent = g.Via, g.From, g.To, g.Contact, g.CallID, g.CSeq, g.UserAgent
				}
				if ok, d := sameMsg(want, g); !ok {
					c.Failf("changed", "what was preset is not what was sent while %d threads send:\n%s\n%s", len(jobs), d, b)
					return
				}
				c.Count("concurrent requests", 1)
			}
		}
		c.Seen(fmt.Sprintf("concurrent %d", len(jobs)))
	})
	for _, st := range shared {
		st.close()
	}
	x.Run("new-request", x.N(1000, 15000), 0, func(c *mon.C) {
		r := c.R
		tp := newTransport(c, loop(r).String(), 0)
		if tp == nil {
			return
		}
		defer shutTransport(tp)
		t := newTap(r)
		defer t.close()
		tpa := tpAddr(tp)
		tpWas := dump(tp.Via) + dump(tp.Contact)
		var last *sip.Addr
		for i, n := 0, r.Range(1, 4); i < n; i++ {
			to := genAddr(r)
			to.Uri.Host, to.Uri.Port, to.Uri.Scheme = t.addr().IP.String(), uint16(t.addr().Port), "sip"
			to.Param = withoutParams(to.Param, "tag")
			if last != nil && r.Bool() { // the same correspondent again
				to = last
			}
			last = to
			var from *sip.Addr
			if r.Bool() {
				from = genAddr(r)
				from.Param = withoutParams(from.Param, "tag")
			}
			toWas, fromWas := dump(to), dump(from)
			method := methods[r.IntN(len(methods))]
			m := dialog.NewRequest(tp, method, to, from)
			if err := tp.Send(m); err != nil {
				c.Failf("error", "%v\n%s", err, m)
				return
			}
			if dump(to) != toWas || dump(from) != fromWas {
				c.Failf("caller", "the caller's addresses were changed: %v %v", to, from)
				return
			}
			got := t.drain()
			if len(got) != 1 {
				c.Failf("missing", "%d packets were sent", len(got))
				return
			}
			wm := completeRequest(c, got[0])
			if wm == nil {
				return
			}
			g, err := sip.ParseMsg(bytes.Clone(got[0]))
			if err != nil {
				c.Failf("malformed", "%v\n%s", err, got[0])
				return
			}
			if wm.Method != method || g.CSeqMethod != method || uriText(g.Request) != uriText(to.Uri) || dump(g.To) != toWas {
				c.Failf("changed", "%s to %v\n%s", method, to, got[0])
				return
			}
			ids.add(c, "tag", g.From.Param.Get("tag").Value)
			g.From.Param = withoutParams(g.From.Param, "tag")
			if from != nil && dump(g.From) != fromWas {
				c.Failf("changed", "From %v\n%s", from, got[0])
				return
			}
			if from == nil && g.From.Uri.Host != tpa.IP.String() {
				c.Failf("changed", "From is not the transport's contact\n%s", got[0])
				return
			}
			v := wm.Vias()
			if len(v) != 1 || v[0].Host != tpa.IP.String() || v[0].Port != tpa.Port || !branchRE.MatchString(v[0].Branch()) {
				c.Failf("via", "Via is %+v, the transport listens on %v", v, tpa)
				return
			}
			ids.add(c, "branch", v[0].Branch())
			ids.add(c, "Call-ID", g.CallID)
			if w := dump(tp.Via) + dump(tp.Contact); w != tpWas {
				c.Failf("transport", "sending changed the transport's own addresses\n%s", diff(tpWas, w))
				return
			}
			if r.P(0.5) { // an application changes its request; the next one is made from the same parts
				scribble(m)
				if dump(to) != toWas || dump(from) != fromWas || dump(tp.Via)+dump(tp.Contact) != tpWas {
					c.Failf("caller", "changing a request that was sent changed what the next one is made from: %v %v", to, from)
					return
				}
			}
			c.Seen("new " + method + fmt.Sprint(from != nil))
		}
	})
	x.Count("generated identifiers compared", int64(len(ids.m)))
}

type sharedTransport struct {
	tp    *dialog.Transport
	given string // the contact it was opened with
	twin  *dialog.Transport
	mu    sync.Mutex
}

// named is the value of the parameter.
func named(p *sip.Param, name string) string {
	for ; p != nil; p = p.Next {
		if p.Name == name {
			return p.Value
		}
	}
	return ""
}

// openShared opens one with a contact that may have more than a host, perhaps
// together with a second one opened with the very same contact.
func openShared(c *mon.C) *sharedTransport {
	r := c.R
	a := genAddr(r)
	a.Uri.Scheme, a.Uri.Host, a.Uri.Port = "sip", loop(r).String(), 0
	for a.Uri.Param.Get("transport") != nil || r.Bool() && a.Uri.Param != nil {
		a.Uri.Param = a.Uri.Param.Next
	}
	a.Uri.Header = nil
	a.Param = nil
	if r.P(0.3) {
		a.Next = genAddr(r)
	}
	st := &sharedTransport{given: contactText(a)}
	open := func() *dialog.Transport {
		tp, err := dialog.NewTransport(a)
		if err != nil {
			c.Failf("open", "NewTransport(%v): %v", a, err)
			return nil
		}
		if tp == nil {
			c.Failf("open", "NewTransport(%v) returns nothing", a)
		}
		return tp
	}
	if st.tp = open(); st.tp == nil {
		return nil
	}
	if r.Bool() {
		a.Uri.Port = 0
		if st.twin = open(); st.twin == nil {
			st.close()
			return nil
		}
	}
	if r.Bool() { // what the caller does with it later is of no concern
		a.Uri.Host, a.Uri.User, a.Display, a.Uri.Port = "elsewhere.test", "else", "else", 9
		a.Uri.Param = nil
	}
	return st
}

// contactText is an address but for its port.
func contactText(a *sip.Addr) string {
	a = a.Copy()
	a.Next = nil
	a.Uri.Port = 0
	return dump(a)
}

func (s *sharedTransport) close() {
	shutTransport(s.tp)
	if s.twin != nil {
		shutTransport(s.twin)
	}
}

// ---------------------------------------------------------------- T05

func checkT05(x *mon.Ctx) {
	x.Run("repeated", x.N(600, 8000), 0, func(c *mon.C) {
		r := c.R
		tp := newTransport(c, loop(r).String(), 0)
		if tp == nil {
			return
		}
		defer shutTransport(tp)
		t := newTap(r)
		defer t.close()
		start := []int{0, 1, 2, 3, 70, 255, r.Range(1, 255), r.Range(1, 12)}[r.IntN(8)]
		m := &sip.Msg{Method: genMethod(r), Request: &sip.URI{Scheme: "sip", Host: t.addr().IP.String(), Port: uint16(t.addr().Port)}, MaxForwards: start}
		limit := start
		if limit == 0 {
			limit = 70
		}
		shape := "direct"
		if r.Bool() && m.Method != "REGISTER" { // along routes
			shape = "routed"
			m.Request = &sip.URI{Scheme: "sip", User: "far", Host: "192.0.2.1"}
			m.Route = routeHop(r, t.addr().IP.String(), uint16(t.addr().Port), true)
			if r.Bool() {
				m.Route.Next = routeHop(r, "192.0.2.2", 0, r.Bool())
			}
			if r.P(0.3) {
				shape = "own route"
				self := routeHop(r, tpAddr(tp).IP.String(), uint16(tpAddr(tp).Port), true)
				self.Next = m.Route
				m.Route = self
			}
		}
		if r.P(0.3) {
			m.Via = &sip.Via{Host: tpAddr(tp).IP.String(), Port: uint16(tpAddr(tp).Port)}
			m.CallID = "set-" + token(r)
			m.CSeq = r.Range(1, 100)
			m.CSeqMethod = m.Method
			shape += " set"
		}
		if r.P(0.3) {
			m.Payload = &sip.MiscPayload{T: "text/plain", D: []byte(token(r))}
			shape += " body"
		}
		n := r.Range(1, 12)
		if start > 0 && start < 30 || r.P(0.2) {
			n = limit + r.Range(0, 3)
		}
		for i := 0; i < n; i++ {
			err := tp.Send(m)
			got := t.drain()
			if limit == 1 {
				if err == nil || len(got) > 0 {
					c.Failf("loop", "starting at %d, transmission %d of a request with limit 1: %v, %d packets", start, i+1, err, len(got))
					return
				}
				c.Count("stopped", 1)
				continue
			}
			if err != nil {
				c.Failf("error", "starting at %d, transmission %d: %v", start, i+1, err)
				return
			}
			limit--
			if !oneHop(c, got, limit, fmt.Sprintf("starting at %d, transmission %d", start, i+1)) {
				return
			}
		}
		c.Seen(fmt.Sprintf("repeated %s start %d n %d", shape, start, n/4))
	})
	x.Run("chain", x.N(300, 4000), 0, func(c *mon.C) {
		r := c.R
		var tps []*dialog.Transport
		for i := r.Range(2, 5); i > 0; i-- {
			tp := newTransport(c, loop(r).String(), 0)
			if tp == nil {
				return
			}
			defer shutTransport(tp)
			tps = append(tps, tp)
		}
		t := newTap(r)
		defer t.close()
		start := []int{0, 2, 3, 5, r.Range(2, 30)}[r.IntN(5)]
		limit := start
		if limit == 0 {
			limit = 70
		}
		spy := r.Range(0, 70)
		m := &sip.Msg{Method: genMethod(r), Request: &sip.URI{Scheme: "sip"}, MaxForwards: start}
		seen := ""
		for hop := 0; ; hop++ {
			if hop > 300 {
				c.Failf("endless", "a request starting at %d is still sent after 300 hops", start)
				return
			}
			from, to := tps[hop%len(tps)], tps[(hop+1)%len(tps)]
			if hop == spy {
				// one hop goes to the side, to be seen on the wire
				m.Request = &sip.URI{Scheme: "sip", Host: t.addr().IP.String(), Port: uint16(t.addr().Port)}
				m.Route = nil
				k := m.Copy()
				err := from.Send(k)
				got := t.drain()
				if limit == 1 {
					if err == nil || len(got) > 0 {
						c.Failf("loop", "starting at %d, hop %d with limit 1: %v, %d packets", start, hop, err, len(got))
					}
					return
				}
				if err != nil {
					c.Failf("error", "starting at %d, hop %d: %v", start, hop, err)
					return
				}
				if !oneHop(c, got, limit-1, fmt.Sprintf("starting at %d, hop %d", start, hop)) {
					return
				}
			}
			a := tpAddr(to)
			m.Request = &sip.URI{Scheme: "sip", Host: a.IP.String(), Port: uint16(a.Port)}
			m.Route = nil
			if r.P(0.3) && m.Method != "REGISTER" { // the next hop is a route
				m.Request = &sip.URI{Scheme: "sip", User: "far", Host: "192.0.2.1"}
				m.Route = routeHop(r, a.IP.String(), uint16(a.Port), true)
			}
			err := from.Send(m)
			if limit == 1 {
				if err == nil {
					c.Failf("loop", "starting at %d, hop %d with limit 1 is sent", start, hop)
				}
				c.Count("stopped", 1)
				break
			}
			if err != nil {
				c.Failf("error", "starting at %d, hop %d: %v", start, hop, err)
				return
			}
			limit--
			if m = nextMsg(c, to, fmt.Sprintf("starting at %d, hop %d", start, hop)); m == nil {
				return
			}
			if m.MaxForwards != limit {
				c.Failf("limit", "starting at %d, hop %d arrives with %d, want %d", start, hop, m.MaxForwards, limit)
				return
			}
			seen = fmt.Sprint(hop / 8)
		}
		c.Seen(fmt.Sprintf("chain %d start %d %s", len(tps), start, seen))
	})
	for _, s := range []settings{{100, 4, false, false}, {100, 3, true, true}} {
		s.apply()
		calls(x, fmt.Sprintf("calls-resends=%d", s.resends), x.N(60, 600), 32, func(w *world) {
			r := w.c.R
			v := w.server(0)
			var o callOpt
			if r.P(0.3) {
				o.host = "target.example"
				o.routes = []string{fmt.Sprintf("sip:%s;lr", v.addr()), "sip:192.0.2.2;lr"}[:r.Range(1, 2)]
			}
			inv := genCall(r, v, o)
			start := []int{0, 1, 2, 3, 4, 70, 255}[r.IntN(7)]
			inv.MaxForwards = start
			limit := start
			if limit == 0 {
				limit = 70
			}
			if !w.start(inv) {
				return
			}
			if w.event(patience+3*time.Duration(s.interval*(s.resends+1))*time.Millisecond, 0, "closed") == nil {
				w.fail("unfinished", "the attempt is not given up")
				return
			}
			w.flush()
			tx := transmissions(w, "INVITE")
			want := min(s.resends+1, limit-1)
			if len(tx) != want {
				w.fail("transmissions", "starting at %d, the INVITE was sent %d times, want %d", start, len(tx), want)
				return
			}
			for i, e := range tx {
				if g := e.m.Get("max-forwards"); g != fmt.Sprint(limit-1-i) {
					w.fail("limit", "starting at %d, transmission %d has the hop limit %s", start, i+1, g)
					return
				}
			}
			if hasErr(w) == nil {
				w.fail("error", "no error is reported")
			}
			w.x.Seen(fmt.Sprintf("call start %d sent %d", start, len(tx)))
		})
	}
	settings{interval: 400, resends: 2}.apply()
}

func oneHop(c *mon.C, got [][]byte, limit int, what string) bool {
	if len(got) != 1 {
		c.Failf("packets", "%s: %d packets", what, len(got))
		return false
	}
	m, err := wire.Parse(got[0])
	if err != nil {
		c.Failf("malformed", "%s: %v\n%s", what, err, got[0])
		return false
	}
	if g := m.All("max-forwards"); len(g) != 1 || g[0] != fmt.Sprint(limit) {
		c.Failf("limit", "%s has the hop limit %v, want %d", what, g, limit)
		return false
	}
	c.Count("limits compared", 1)
	return true
}

// ---------------------------------------------------------------- T06

func firstParam(p *sip.Param, name string) (string, bool) {
	for ; p != nil; p = p.Next {
		if strings.EqualFold(p.Name, name) {
			return p.Value, true
		}
	}
	return "", false
}

func lastVia(v *sip.Via) *sip.Via {
	for v != nil && v.Next != nil {
		v = v.Next
	}
	return v
}

func sameHop(a, b *sip.Via) bool {
	return a != nil && b != nil && a.Host == b.Host && or5060(a.Port) == or5060(b.Port)
}

// nearly is a text that differs from s in one place, in more than the case of
// a letter.
func nearly(r *mon.Rand, s string) string {
	i := r.IntN(len(s))
	switch r.IntN(4) {
	case 0:
		return s + r.Pick("0", "-", "x")
	case 1:
		if i > 0 {
			return s[:i]
		}
	case 2:
		return s[:i] + r.Pick("0", "x") + s[i:]
	}
	b := []byte(s)
	for strings.EqualFold(string(b), s) {
		b[i] = alnum[r.IntN(len(alnum))]
	}
	return string(b)
}

func checkT06(x *mon.Ctx) {
	x.Run("model", x.N(60000, 900000), 0, func(c *mon.C) {
		r := c.R
		req := genMsg(r)
		for req.Status != 0 {
			req = genMsg(r)
		}
		req.Via = genVia(r, 1, 1)
		req.Via.Param = withoutParams(req.Via.Param, "branch")
		branch := "z9hG4bK" + str(r, tokenS, 1, r.Pick2(10, 60))
		if !r.P(0.1) {
			req.Via.Param = &sip.Param{Name: r.Pick("branch", "branch", "Branch"), Value: branch, Next: req.Via.Param}
		}
		if r.P(0.3) {
			req.Via.Port = uint16([]int{0, 5060, 5061}[r.IntN(3)])
		}
		m := genMsg(r)
		ack := r.P(0.4)
		if ack {
			m.Status, m.Phrase, m.Method, m.Request = 0, "", "ACK", genURI(r)
			m.CSeqMethod = "ACK"
		} else {
			m.Method, m.Request = "", nil
			m.Status = r.Range(100, 699)
			m.CSeqMethod = req.Method
		}
		m.CSeq = req.CSeq
		v := req.Via.Copy()
		if r.P(0.4) { // another spelling of the same hop
			switch or5060(v.Port) {
			case 5060:
				v.Port = uint16(r.Pick2(0, 5060))
			}
			v.Transport = r.Pick("UDP", "TCP")
			if b, ok := firstParam(v.Param, "branch"); ok {
				v.Param = withoutParams(v.Param, "branch")
				v.Param = &sip.Param{Name: r.Pick("branch", "BRANCH"), Value: b, Next: v.Param}
			}
			v.Param = &sip.Param{Name: r.Pick("received", "rport"), Value: "1.2.3.4", Next: v.Param}
		}
		m.Via = v
		if r.P(0.3) { // hops in front of it
			front := genVia(r, 1, 3)
			lastVia(front).Next = v
			m.Via = front
			v = lastVia(m.Via)
		}
		kind := ""
		for n := []int{0, 0, 1, 1, 1, 2, 3}[r.IntN(7)]; n > 0; n-- {
			k := r.IntN(18)
			kind += fmt.Sprintf(" %d", k)
			switch k {
			case 0:
				m.CSeq += r.Pick2(1, -1)
			case 1:
				m.CSeq = r.IntN(1 << 20)
			case 2:
				m.CSeqMethod = methods[r.IntN(len(methods))]
			case 3:
				v.Host += r.Pick("0", ".", "x")
			case 4:
				v.Host = host(r)
			case 5:
				v.Port = uint16([]int{0, 5060, 5061, 1}[r.IntN(4)])
			case 6:
				v.Port++
			case 7:
				v.Param = withoutParams(v.Param, "branch")
			case 8:
				v.Param = withoutParams(v.Param, "branch")
				v.Param = &sip.Param{Name: "branch", Value: nearly(r, branch), Next: v.Param}
			case 14:
				if v.Host != "" {
					v.Host = nearly(r, v.Host)
				}
			case 15:
				m.CSeqMethod = nearly(r, req.Method)
				if m.Method == "ACK" && r.Bool() {
					m.Method = nearly(r, "ACK")
				}
			case 16: // a number that differs in one bit
				m.CSeq ^= 1 << r.IntN(31)
			case 17:
				v.Port = or5060(v.Port) ^ 1<<r.IntN(16)
			case 9: // the right hop is no longer the last one
				v.Next = genVia(r, 1, 1)
				v = v.Next
			case 10:
				m.Status, m.Method, m.Request = 0, methods[r.IntN(len(methods))], genURI(r)
			case 11:
				m.Via = nil
				v = &sip.Via{}
			case 12:
				m.Status, m.Method, m.Request = r.Range(100, 699), "", nil
			case 13: // differing only in things that do not matter
				m.CallID, m.To, m.From = callID(r), genAddr(r), genAddr(r)
			}
		}
		last := lastVia(m.Via)
		var wantRsp, wantAck bool
		if last != nil {
			b1, ok1 := firstParam(req.Via.Param, "branch")
			b2, ok2 := firstParam(last.Param, "branch")
			wantRsp = m.Status != 0 && m.CSeq == req.CSeq && m.CSeqMethod == req.Method && sameHop(last, req.Via) && ok1 && ok2 && b1 == b2
			wantAck = m.Status == 0 && m.Method == "ACK" && m.CSeqMethod == "ACK" && m.CSeq == req.CSeq && sameHop(last, req.Via)
		}
		show := func() string { return fmt.Sprintf("changes%s\nrequest\n%s\nmessage\n%s", kind, req, m) }
		if g := dialog.ResponseMatch(req, m); g != wantRsp {
			c.Failf("response", "ResponseMatch = %v, want %v\n%s", g, wantRsp, show())
			return
		}
		if g := dialog.AckMatch(req, m); g != wantAck {
			c.Failf("ack", "AckMatch = %v, want %v\n%s", g, wantAck, show())
			return
		}
		c.Seen(fmt.Sprintf("ack %v changes%s = %v %v", ack, kind, wantRsp, wantAck))
		if wantRsp || wantAck {
			c.Count("matches", 1)
		}
	})
	x.Run("wire", x.N(1500, 12000), 0, func(c *mon.C) {
		r := c.R
		var a, b *dialog.Transport
		if r.P(0.3) { // the default port
			a = newTransport(c, loop(r).String(), 5060)
		} else {
			a = newTransport(c, loop(r).String(), 0)
		}
		if b = newTransport(c, loop(r).String(), 0); a == nil || b == nil {
			return
		}
		defer shutTransport(a)
		defer shutTransport(b)
		ba := tpAddr(b)
		var reqs, ins, rsps []*sip.Msg
		for i, n := 0, r.Range(2, 5); i < n; i++ {
			m := dialog.NewRequest(a, r.Pick("INVITE", "INVITE", "BYE", "OPTIONS"), &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: ba.IP.String(), Port: uint16(ba.Port)}}, nil)
			if i > 0 && r.Bool() {
				m.CSeq = reqs[0].CSeq
			}
			if err := a.Send(m); err != nil {
				c.Failf("error", "%v", err)
				return
			}
			in := nextMsg(c, b, "request")
			if in == nil {
				return
			}
			rsp := dialog.NewResponse(in, []int{100, 180, 200, 486}[r.IntN(4)])
			if err := b.Send(rsp); err != nil {
				c.Failf("error", "%v", err)
				return
			}
			back := nextMsg(c, a, "response")
			if back == nil {
				return
			}
			reqs, ins, rsps = append(reqs, m), append(ins, rsp), append(rsps, back)
		}
		for i := range reqs {
			for j := range rsps {
				if g := dialog.ResponseMatch(reqs[i], rsps[j]); g != (i == j) {
					c.Failf("response", "ResponseMatch of request %d and response %d = %v\n%s\n%s", i, j, g, reqs[i], rsps[j])
					return
				}
				if dialog.AckMatch(reqs[i], rsps[j]) {
					c.Failf("ack", "a response matches as ACK\n%s", rsps[j])
					return
				}
			}
			ack := dialog.NewAck(rsps[i], reqs[i])
			if err := a.Send(ack); err != nil {
				c.Failf("error", "%v", err)
				return
			}
			got := nextMsg(c, b, "ACK")
			if got == nil {
				return
			}
			for j := range ins {
				want := ins[j].CSeq == ins[i].CSeq
				if g := dialog.AckMatch(ins[j], got); g != want {
					c.Failf("ack", "AckMatch of response %d and the ACK for %d = %v\n%s\n%s", j, i, g, ins[j], got)
					return
				}
				if dialog.ResponseMatch(reqs[j], got) {
					c.Failf("response", "an ACK matches as response\n%s", got)
					return
				}
			}
			c.Count("matches", 2)
		}
		c.Seen(fmt.Sprintf("wire %d", len(reqs)))
	})
}

// ---------------------------------------------------------------- U01

func checkU01(x *mon.Ctx) {
	ids := make([]sync.Map, 64)
	add := func(kind, id string) bool {
		h := 0
		for i := 0; i < len(id); i++ {
			h = h*31 + int(id[i])
		}
		_, dup := ids[uint(h)%64].LoadOrStore(kind+" "+id, true)
		return !dup
	}
	x.Run("identifiers", x.N(400, 4000), 0, func(c *mon.C) {
		threads := c.R.Range(1, 4)
		var wg sync.WaitGroup
		for t := 0; t < threads; t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					for _, g := range []struct {
						kind string
						id   string
						re   *regexp.Regexp
					}{
						{"tag", util.GenerateTag(), tokenRE},
						{"branch", util.GenerateBranch(), branchRE},
						{"Call-ID", util.GenerateCallID(), callRE},
						{"From tag", named((&sip.Addr{}).Tag().Param, "tag"), tokenRE},
						{"Via branch", named((&sip.Via{}).Branch().Param, "branch"), branchRE},
					} {
						if !g.re.MatchString(g.id) {
							c.Failf("form", "the %s %q is not well-formed", g.kind, g.id)
							return
						}
						if !add(g.kind, g.id) {
							c.FailAll("repeated", "the %s %q was generated twice", g.kind, g.id)
							return
						}
						c.Count("identifiers", 1)
					}
				}
			}()
		}
		wg.Wait()
		c.Seen(fmt.Sprintf("threads %d", threads))
	})
	// many, which shows when there are too few to choose from
	x.Run("many", 3, 0, func(c *mon.C) {
		kind := []string{"tag", "branch", "Call-ID"}[c.ID.Index]
		gen := []func() string{util.GenerateTag, util.GenerateBranch, util.GenerateCallID}[c.ID.Index]
		n := 200000
		seen := make(map[string]struct{}, n)
		for i := 0; i < n; i++ {
			id := gen()
			if _, dup := seen[id]; dup {
				c.FailAll("repeated", "the %s %q was generated twice among %d", kind, id, i)
				return
			}
			seen[id] = struct{}{}
		}
		c.Count("identifiers", int64(n))
		c.Seen("many " + kind)
	})
	x.Run("numbers", x.N(40, 400), 0, func(c *mon.C) {
		cseq, origin := map[int]int{}, map[string]int{}
		n := 500
		for i := 0; i < n; i++ {
			s := util.GenerateCSeq()
			if s < 0 || s >= 1<<31 {
				c.Failf("cseq", "GenerateCSeq() = %d", s)
				return
			}
			cseq[s]++
			o := util.GenerateOriginID()
			if !regexp.MustCompile(`^[0-9]{1,10}$`).MatchString(o) || len(o) == 10 && o > "4294967295" {
				c.Failf("origin", "GenerateOriginID() = %q", o)
				return
			}
			origin[o]++
			c.Count("numbers", 2)
		}
		if len(cseq) < n/2 || len(origin) < n/2 {
			c.Failf("vary", "only %d sequence numbers and %d session identifiers among %d", len(cseq), len(origin), n)
		}
		c.Seen(fmt.Sprintf("numbers %d", c.ID.Index))
	})
	// 0 stands for a number that isn't set, so that the request it's in gets
	// another one as soon as it's sent again.
	x.Run("set", x.N(16, 160), 0, func(c *mon.C) {
		for i := 0; i < 50000; i++ {
			if util.GenerateCSeq() == 0 {
				c.Failf("cseq-unset", "GenerateCSeq() = 0, which stands for none")
				return
			}
		}
		c.Count("numbers", 50000)
		c.Eval(1)
	})
	// in what is sent to the network
	x.Run("requests", x.N(60, 600), 0, func(c *mon.C) {
		tp := newTransport(c, loop(c.R).String(), 0)
		if tp == nil {
			return
		}
		defer shutTransport(tp)
		var taps []*tap
		threads := c.R.Range(1, 4)
		for i := 0; i < threads; i++ {
			t := newTap(c.R)
			defer t.close()
			taps = append(taps, t)
		}
		var wg sync.WaitGroup
		per := c.R.Range(1, 20)
		for _, t := range taps {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					if err := tp.Send(&sip.Msg{Method: "OPTIONS", Request: &sip.URI{Scheme: "sip", Host: t.addr().IP.String(), Port: uint16(t.addr().Port)}}); err != nil {
						c.Failf("error", "%v", err)
					}
				}
			}()
		}
		wg.Wait()
		for _, t := range taps {
			got := t.drain()
			if len(got) != per {
				c.Failf("missing", "%d of %d requests were sent", len(got), per)
				return
			}
			for _, b := range got {
				m, err := wire.Parse(b)
				if err != nil || len(m.Vias()) != 1 {
					c.Failf("malformed", "%v\n%s", err, b)
					return
				}
				for _, g := range []struct {
					kind string
					id   string
					re   *regexp.Regexp
				}{{"sent tag", m.Addr("from").Tag(), tokenRE}, {"sent branch", m.Vias()[0].Branch(), branchRE}, {"sent Call-ID", m.Get("call-id"), callRE}} {
					if !g.re.MatchString(g.id) {
						c.Failf("form", "the %s %q is not well-formed\n%s", g.kind, g.id, b)
						return
					}
					if !add(g.kind, g.id) {
						c.FailAll("repeated", "the %s %q was sent twice", g.kind, g.id)
						return
					}
					c.Count("identifiers", 1)
				}
			}
		}
		c.Seen(fmt.Sprintf("requests %d", threads))
	})
}

func init() {
	a := []string{"loopback UDP delivers in order and, for short bursts, without loss"}
	mon.Register(&mon.Check{ID: "T01", Rule: "bursts of generated messages of all sizes up to 2048 bytes from up to three senders, in one order or concurrently, mixed with random, cut and mutated datagrams, to quick, slow, sending and message-overwriting applications; every message is compared with an independent parse of the sent bytes, kept, and compared again at the end; and sockets closed with zero to two messages waiting; non-trivial means a datagram of a distinct kind", Assumptions: a, Race: true, Run: checkT01})
	mon.Register(&mon.Check{ID: "T02", Rule: "requests from real sockets whose Via lists claim real, foreign and decoy addresses and ports in every spelling, answered through the transport; all claimed addresses are watched; non-trivial means a distinct combination of claims", Assumptions: a, Race: true, Run: checkT02})
	mon.Register(&mon.Check{ID: "T03", Rule: "generated route sets and targets against a routing model: the routing function, address resolution against a scripted name server, requests captured at the destinations, requests delivered by receivers, and journeys through several transports; non-trivial means a distinct routing situation", Assumptions: a, Race: true, Run: checkT03})
	mon.Register(&mon.Check{ID: "T04", Rule: "all 2048 subsets of preset parts with generated values, sent and captured, on fresh and on shared transports, one after another and from several threads, with sent messages overwritten afterwards; presets compared, generated parts checked for form and uniqueness; non-trivial means a distinct subset", Assumptions: a, Race: true, Run: checkT04})
	mon.Register(&mon.Check{ID: "T05", Rule: "requests with all starting limits sent repeatedly, forwarded around rings of transports until they stop, and repeated by calls to silent servers; the limit of every packet is compared; non-trivial means a distinct start and length", Assumptions: a, Race: true, Run: checkT05})
	mon.Register(&mon.Check{ID: "T06", Rule: "requests and messages that differ in none to three parts against a matching model, and all pairs of requests, responses and ACKs that travelled between two transports; non-trivial means a distinct set of differences and verdict", Assumptions: a, Race: true, Run: checkT06})
	mon.Register(&mon.Check{ID: "U01", Rule: "identifiers generated by one to four threads at once, directly and in sent requests, all compared with each other; non-trivial means a distinct number of threads or sample", Race: true, Run: checkU01})
}

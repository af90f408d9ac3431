package checks

import (
	"fmt"
	"net"
	"strconv"
	"strings"

	"verif/mon"
	"verif/wire"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
)

// ---------------------------------------------------------------- T07

// hopText is a hop by what it means, without time stamps, and without what the
// first receiver notes if bare.
func hopText(v *sip.Via, bare bool) string {
	drop := []string{"usi"}
	if bare {
		drop = append(drop, "received", "rport")
	}
	s := fmt.Sprintf("%s/%s/%s %s:%d", v.Protocol, v.Version, v.Transport, v.Host, v.Port)
	if v.Protocol == "" {
		s = fmt.Sprintf("SIP/2.0/UDP %s:%d", v.Host, v.Port)
	}
	for p := withoutParams(v.Param, drop...); p != nil; p = p.Next {
		s += fmt.Sprintf(";%s=%q", p.Name, p.Value)
	}
	return s
}

// hopTexts lists them, bare up to the one at bareAt.
func hopTexts(v *sip.Via, bareAt int) (out []string) {
	for i := 0; v != nil; v, i = v.Next, i+1 {
		out = append(out, hopText(v, i <= bareAt))
	}
	return
}

func hopCount(v *sip.Via) (n int) {
	for ; v != nil; v = v.Next {
		n++
	}
	return
}

// restOf is a message apart from what changes at every hop.
func restOf(m *sip.Msg) string {
	c := *m
	c.Via, c.Route, c.MaxForwards = nil, nil, 0
	if m.Status == 0 {
		c.Request = nil
	}
	return dump(&c)
}

// A passage is a request on its way through transports.
type passage struct {
	path []int // transports visited
	req  []byte
	from *tap
	m    *sip.Msg   // as received by the last one
	vias [][]string // list of hops as the n-th transport should see them in the response
}

func checkT07(x *mon.Ctx) {
	x.Run("model", x.N(40000, 600000), 0, func(c *mon.C) {
		r := c.R
		self := &sip.Via{Host: r.Pick("192.0.2.1", "proxy.example", "::1", host(r)), Port: []uint16{0, 5060, 5080, port(r)}[r.IntN(4)]}
		list := genVia(r, 0, 4)
		kind := ""
		for v := list; v != nil; v = v.Next {
			if r.P(0.4) {
				v.Host = self.Host
				if r.Bool() {
					v.Port = self.Port
				} else if self.Port == 5060 || self.Port == 0 {
					v.Port = []uint16{0, 5060}[r.IntN(2)]
				}
			}
			v.Param = withoutParams(v.Param, "rport", "received")
			if r.P(0.4) {
				v.Param = &sip.Param{Name: "received", Value: r.Pick("192.0.2.99", "2001:db8::9", "10.1.1.1"), Next: v.Param}
			}
			if r.P(0.4) {
				v.Param = &sip.Param{Name: "rport", Value: r.Pick("", "53", "7", "999", "1024", "5060", "65535", "65536", "abc", "-1", "99999999999", "5060 "), Next: v.Param}
			}
		}
		var texts []string
		for v := list; v != nil; v = v.Next {
			texts = append(texts, hopText(v, false))
		}
		// What should happen?
		top := list
		rest := texts
		if top != nil && top.Host == self.Host && or5060(top.Port) == or5060(self.Port) {
			top, rest = top.Next, rest[1:]
			kind = "own"
		}
		wantErr := top == nil
		var wantHost string
		var wantPort uint16
		if top != nil {
			wantHost, wantPort = top.Host, top.Port
			if v, ok := firstParam(top.Param, "received"); ok {
				wantHost = v
				kind += " received"
			}
			if v, ok := firstParam(top.Param, "rport"); ok && v != "" {
				n, err := strconv.Atoi(v)
				wantErr = err != nil || n < 0 || n > 65535
				wantPort = uint16(n)
				kind += " rport"
			}
		}
		m := &sip.Msg{Status: r.Range(100, 699), Via: list, CallID: "x", CSeq: 1, CSeqMethod: "INVITE"}
		h, p, err := dialog.RouteMessage(self, &sip.Addr{Uri: &sip.URI{Host: self.Host, Port: self.Port}}, m)
		what := fmt.Sprintf("at %s, a response with the hops\n%s", hopText(self, false), strings.Join(texts, "\n"))
		if (err != nil) != wantErr {
			c.Failf("error", "%s\nroutes to %s port %d, error %v, want error %v", what, h, p, err, wantErr)
			return
		}
		if err == nil {
			if h != wantHost || p != wantPort {
				c.Failf("destination", "%s\nroutes to %s port %d, want %s port %d", what, h, p, wantHost, wantPort)
				return
			}
			if g := hopTexts(m.Via, -1); strings.Join(g, "\n") != strings.Join(rest, "\n") {
				c.Failf("hops", "%s\ngoes on with the hops\n%s", what, strings.Join(g, "\n"))
				return
			}
		}
		c.Seen(fmt.Sprintf("%s hops %d error %v", kind, len(texts), wantErr))
	})
	for _, stamps := range []bool{false, true} {
		settings{400, 2, false, stamps}.apply()
		x.Run(fmt.Sprintf("retrace-stamps=%v", stamps), x.N(1200, 10000), 0, retraceCase)
	}
	settings{interval: 400, resends: 2}.apply()
	x.Run("dead-end", x.N(1500, 10000), 0, deadEndCase)
}

func retraceCase(c *mon.C) {
	r := c.R
	var tps []*dialog.Transport
	six := haveIP6() && r.P(0.15)
	where := func() net.IP {
		if six {
			return net.IPv6loopback
		}
		return loop(r)
	}
	base := where()
	for i := r.Range(1, 5); i > 0; i-- {
		ip := base
		if r.P(0.6) { // some share their address
			ip = where()
		}
		tp := newTransport(c, ip.String(), 0)
		if tp == nil {
			return
		}
		defer shutTransport(tp)
		tps = append(tps, tp)
	}
	self := func(tp *dialog.Transport) *sip.Addr {
		a := tpAddr(tp)
		return routeHop(r, a.IP.String(), uint16(a.Port), true)
	}
	// quiet makes sure that nothing else is waiting anywhere.
	probe := 0
	quiet := func(from *tap) bool {
		for i, tp := range tps {
			probe++
			id := fmt.Sprintf("probe%d", probe)
			sendTo(from.s, tpAddr(tp), wire.Lines("OPTIONS sip:x SIP/2.0", "Via: SIP/2.0/UDP 192.0.2.1;branch=z9hG4bK"+id, "From: <sip:a@b>;tag=1", "To: <sip:c@d>",
				"Call-ID: "+id, "CSeq: 1 OPTIONS", "Max-Forwards: 70", "Content-Length: 0"))
			m := nextMsg(c, tp, "probe")
			if m == nil {
				return false
			}
			if m.CallID != id {
				c.Failf("astray", "transport %d got an extra message\n%s", i, m)
				return false
			}
		}
		return true
	}
	var ps []*passage
	for k := r.Range(1, 4); k > 0; k-- {
		p := &passage{from: tapOn(where())}
		defer p.from.close()
		for n := r.Range(1, 5); n > 0; n-- {
			p.path = append(p.path, r.IntN(len(tps)))
		}
		// A response made where its request just passed would take a short cut.
		for n := len(p.path); n > 1 && p.path[n-1] == p.path[n-2]; n = len(p.path) {
			p.path = p.path[:n-1]
		}
		desc := fmt.Sprintf("path %v of %d transports", p.path, len(tps))
		// the first hops are the originator's
		m := genMsg(r)
		for m.Status != 0 || m.Method == "ACK" || m.Method == "REGISTER" || m.VersionMajor != 2 {
			m = genMsg(r)
		}
		if m.Request.Scheme != "sip" {
			m.Request = &sip.URI{Scheme: "sip", Host: "far.example"}
		}
		for pr := &m.Request.Param; *pr != nil; { // not a strict router's doing
			if strings.EqualFold((*pr).Name, "lr") {
				*pr = (*pr).Next
			} else {
				pr = &(*pr).Next
			}
		}
		m.UserAgent, m.CSeq = "x", max(m.CSeq, 1) // what is zero counts as not set
		m.CallID = fmt.Sprintf("passage%d", k)
		if m.Contact == nil {
			m.Contact = genAddr(r)
		}
		m.MaxForwards = 70
		m.From.Param = &sip.Param{Name: "tag", Value: token(r), Next: withoutParams(m.From.Param, "tag")}
		m.Via = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: p.from.addr().IP.String(), Port: uint16(p.from.addr().Port), Next: m.Via}
		if r.P(0.4) { // behind a translator
			m.Via.Host = r.Pick("192.0.2.77", "10.0.0.5", "pc.example")
			m.Via.Port = []uint16{0, 5060, 40000}[r.IntN(3)]
		}
		m.Via.Param = &sip.Param{Name: "branch", Value: "z9hG4bK" + token(r)}
		if r.Bool() {
			m.Via.Param.Next = &sip.Param{Name: "rport"}
		}
		own := hopTexts(m.Via, 0)
		m.Route = nil
		p.req = []byte(m.String())
		if len(p.req) > 900 { // it has to fit the receivers' buffers with all that's added
			m = &sip.Msg{VersionMajor: 2, Method: m.Method, Request: m.Request, Via: m.Via, From: m.From, To: m.To, CallID: m.CallID, CSeq: m.CSeq,
				CSeqMethod: m.CSeqMethod, MaxForwards: 70, Contact: m.Contact, UserAgent: "x"}
			if p.req = []byte(m.String()); len(p.req) > 1000 {
				continue
			}
		}
		content := restOf(m)
		if k, err := sip.ParseMsg(append([]byte{}, p.req...)); err == nil {
			content = restOf(k)
		}
		sendTo(p.from.s, tpAddr(tps[p.path[0]]), p.req)
		for i, at := range p.path {
			tp := tps[at]
			if m = nextMsg(c, tp, fmt.Sprintf("request at hop %d of %s", i, desc)); m == nil {
				return
			}
			if g := restOf(m); g != content {
				c.Failf("request", "at hop %d of %s, the request changed:\n%s", i, desc, diff(content, g))
				return
			}
			n := hopCount(m.Via) - len(own)
			if g := hopTexts(m.Via, n); strings.Join(g[max(n, 0):], "\n") != strings.Join(own, "\n") || n != i {
				c.Failf("request-hops", "at hop %d of %s, the request has the hops\n%s", i, desc, strings.Join(g, "\n"))
				return
			}
			if i == len(p.path)-1 {
				p.m = m
				break
			}
			v := tp.Via.Copy()
			v.Next = m.Via
			v.Param = &sip.Param{Name: "branch", Value: fmt.Sprintf("z9hG4bK%s%d", token(r), i)}
			if r.P(0.3) {
				v.Param = &sip.Param{Name: "rport", Next: v.Param}
			}
			m.Via = v
			a := tpAddr(tps[p.path[i+1]])
			if p.path[i+1] != at && r.Bool() {
				m.Route = self(tps[p.path[i+1]])
			} else {
				m.Request = &sip.URI{Scheme: "sip", Host: a.IP.String(), Port: uint16(a.Port)}
			}
			// what the response has when it's back here
			p.vias = append(p.vias, hopTexts(m.Via, hopCount(m.Via)-len(own)))
			if err := tp.Send(m); err != nil {
				c.Failf("send", "at hop %d of %s, the request isn't sent: %v", i, desc, err)
				return
			}
		}
		p.vias = append(p.vias, own)
		ps = append(ps, p)
	}
	type answer struct {
		p      *passage
		status int
	}
	var as []answer
	for _, p := range ps {
		for n := r.Range(1, 3); n > 0; n-- {
			as = append(as, answer{p, r.Range(100, 699)})
		}
	}
	r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	for _, a := range as {
		p := a.p
		desc := fmt.Sprintf("path %v of %d transports", p.path, len(tps))
		m := dialog.NewResponse(p.m, a.status)
		m.Via = m.Via.Copy()
		m.Phrase = r.Pick(m.Phrase, "As You Like It")
		if r.Bool() {
			m.Contact = genAddrs(r, 1, 2)
		}
		if r.P(0.3) {
			m.XHeader = &sip.XHeader{Name: "X-Note", Value: []byte(token(r))}
		}
		switch r.IntN(3) {
		case 0:
			m.Payload = &sip.MiscPayload{T: "text/plain", D: []byte(text(r) + ".")}
		case 1:
			m.Payload = genSDP(r)
		}
		if len(m.String()) > 1500 {
			m.Payload, m.Contact = nil, nil
		}
		content := ""
		if k, err := sip.ParseMsg([]byte(m.String())); err == nil {
			content = restOf(k)
		} else {
			c.Failf("unreadable", "%v\n%s", err, m)
			return
		}
		for i := len(p.path) - 1; i >= 0; i-- {
			if err := tps[p.path[i]].Send(m); err != nil {
				c.Failf("send", "on the way back at hop %d of %s, the response isn't sent: %v", i, desc, err)
				return
			}
			if i == 0 {
				break
			}
			if m = nextMsg(c, tps[p.path[i-1]], fmt.Sprintf("response back to hop %d of %s", i-1, desc)); m == nil {
				return
			}
			want := p.vias[i-1]
			g := hopTexts(m.Via, hopCount(m.Via)-len(p.vias[len(p.vias)-1]))
			if strings.Join(g, "\n") != strings.Join(want, "\n") {
				c.Failf("hops", "back at hop %d of %s, the response has the hops\n%s\nthe request left with\n%s", i-1, desc, strings.Join(g, "\n"), strings.Join(want, "\n"))
				return
			}
			if g := restOf(m); g != content {
				c.Failf("changed", "back at hop %d of %s, the response changed:\n%s", i-1, desc, diff(content, g))
				return
			}
			c.Count("hops retraced", 1)
		}
		got := p.from.drain()
		if len(got) != 1 {
			c.Failf("missing", "%d responses are back at the origin of %s, want 1", len(got), desc)
			return
		}
		back, err := sip.ParseMsg(got[0])
		if err != nil {
			c.Failf("malformed", "%v\n%s", err, got[0])
			return
		}
		if g, w := strings.Join(hopTexts(back.Via, 0), "\n"), strings.Join(p.vias[len(p.vias)-1], "\n"); g != w {
			c.Failf("hops", "back at the origin of %s, the response has the hops\n%s\nthe request had\n%s", desc, g, w)
			return
		}
		if g := restOf(back); g != content {
			c.Failf("changed", "back at the origin of %s, the response changed:\n%s", desc, diff(content, g))
			return
		}
		c.Count("responses back at their origin", 1)
		if c.ID.Index < 2 {
			c.Sample("retrace", "%s:\n%s\nresponse:\n%s", desc, p.req, got[0])
		}
	}
	for _, p := range ps {
		if got := p.from.drain(); len(got) > 0 {
			c.Failf("astray", "an origin got a response to nothing\n%s", got[0])
			return
		}
		again := ""
		for i := range p.path {
			for j := range p.path[:i] {
				if p.path[i] == p.path[j] {
					again = " again"
				}
			}
			if i > 0 && p.path[i] == p.path[i-1] {
				again = " self"
				break
			}
		}
		c.Seen(fmt.Sprintf("six %v path %v of %d%s, %d passages", six, p.path, len(tps), again, len(ps)))
	}
	if len(ps) > 0 {
		quiet(ps[0].from)
	}
}

// deadEndCase sends responses that have nowhere to go.
func deadEndCase(c *mon.C) {
	r := c.R
	a := newTransport(c, loop(r).String(), 0)
	if a == nil {
		return
	}
	defer shutTransport(a)
	b := newTransport(c, r.Pick(tpAddr(a).IP.String(), loop(r).String()), 0)
	if b == nil {
		return
	}
	defer shutTransport(b)
	t := newTap(r)
	defer t.close()
	to := tpAddr(b)
	req := &sip.Msg{Method: r.Pick("OPTIONS", "INVITE", "MESSAGE"), Request: &sip.URI{Scheme: "sip", Host: to.IP.String(), Port: uint16(to.Port)}}
	req.CallID = "deadend"
	if err := a.Send(req); err != nil {
		c.Failf("send", "%v", err)
		return
	}
	m := nextMsg(c, b, "request")
	if m == nil {
		return
	}
	k := r.IntN(4)
	name := []string{"used up", "no hops", "bad port", "own only"}[k]
	status := r.Range(100, 699)
	var err error
	switch k {
	case 0: // back at its origin, which has nobody to send it on to
		if err := b.Send(dialog.NewResponse(m, status)); err != nil {
			c.Failf("send", "%v", err)
			return
		}
		if m = nextMsg(c, a, "response"); m == nil {
			return
		}
		if !dialog.ResponseMatch(req, m) {
			c.Failf("match", "the response doesn't match\n%s\n%s", req, m)
			return
		}
		err = a.Send(m)
	case 1:
		m = dialog.NewResponse(m, status)
		m.Via = nil
		err = b.Send(m)
	case 2: // a port that's none
		m = dialog.NewResponse(m, status)
		m.Via = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: t.addr().IP.String(), Port: uint16(t.addr().Port),
			Param: &sip.Param{Name: "rport", Value: r.Pick("65536", fmt.Sprint(65536+t.addr().Port), "99999999999999999999", "x", "-5060")}}
		if r.Bool() {
			v := b.Via.Copy()
			v.Next = m.Via
			m.Via = v
		}
		err = b.Send(m)
	default:
		m = dialog.NewResponse(m, status)
		m.Via = b.Via.Copy()
		err = b.Send(m)
	}
	if err == nil {
		c.Failf("no-error", "%s: a response that has nowhere to go is sent without an error\n%s", name, m)
		return
	}
	if got := t.drain(); len(got) > 0 {
		c.Failf("astray", "%s: it went somewhere all the same\n%s", name, got[0])
		return
	}
	for _, tp := range []*dialog.Transport{a, b} {
		sendTo(t.s, tpAddr(tp), wire.Lines("OPTIONS sip:x SIP/2.0", "Via: SIP/2.0/UDP 192.0.2.1;branch=z9hG4bKp", "From: <sip:a@b>;tag=1", "To: <sip:c@d>",
			"Call-ID: probe", "CSeq: 1 OPTIONS", "Max-Forwards: 70", "Content-Length: 0"))
		m := nextMsg(c, tp, "probe")
		if m == nil {
			return
		}
		if m.CallID != "probe" {
			c.Failf("astray", "%s: it went somewhere all the same\n%s", name, m)
			return
		}
	}
	c.Seen(name + fmt.Sprint(status/100))
}

func init() {
	mon.Register(&mon.Check{
		ID:          "T07",
		Rule:        "generated requests from real sockets over paths of one to five transports, visited once or repeatedly, each adding its hop; their responses, in any order, are followed hop by hop to the origin with their hops and content compared at every stage; generated responses against a routing model; responses with nowhere to go; non-trivial means a distinct path, model situation or dead end",
		Assumptions: []string{"loopback UDP delivers in order and, for short bursts, without loss"},
		Race:        true,
		Run:         checkT07,
	})
}

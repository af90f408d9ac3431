package checks

import (
	"errors"
	"fmt"
	"net"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/jart/gosip/sip"
	"verif/mon"
	"verif/wire"
)

// foreignMsg writes a valid message of another call.
func foreignMsg(r *mon.Rand, inv *wire.Msg, v *server) []byte {
	id := r.Pick("x", inv.Get("call-id")+"x", "another@example.com", strings.ToUpper(inv.Get("call-id"))+"z")
	var body []byte
	if r.P(0.5) {
		body = bodyText("192.0.2.66", 666, 0)
	}
	if r.Bool() {
		p := newPeer(r, inv)
		l := []string{"Call-ID: " + id, "Contact: <sip:evil@192.0.2.66>", "Record-Route: <sip:192.0.2.66;lr>"}
		method := r.Pick("BYE", "INVITE", "CANCEL", "ACK", "OPTIONS", "INFO", "FOO")
		if r.P(0.3) {
			l = append(l, "!"+method+" sip:x@example.com SIP/"+r.Pick("3.0", "1.0", "2.1"))
		}
		if r.P(0.2) {
			l = append(l, "Max-Forwards: "+r.Pick("0", "1", ""))
		}
		if r.P(0.2) {
			l = append(l, "Via:")
		}
		return p.requestBody(method, r.Pick2(r.IntN(100), r.IntN(1<<31)), body, l...)
	}
	version := ""
	if r.P(0.2) {
		version = "SIP/" + r.Pick("3.0", "1.0", "2.1")
	}
	n, _ := inv.CSeq()
	return reply{status: r.Pick2(200, r.Range(100, 699)), tag: "evil", contact: "<sip:evil@192.0.2.66>", body: body, callid: id, version: version,
		cseq: fmt.Sprintf("%d %s", n+r.IntN(2), r.Pick("INVITE", "BYE", "CANCEL"))}.to(inv)
}

// junk makes a datagram that is no message of the call.
func junk(r *mon.Rand, inv *wire.Msg, v *server) ([]byte, string) {
	for {
		var b []byte
		var kind string
		switch r.IntN(8) {
		case 0:
			b, kind = nil, "empty"
		case 1:
			b, kind = r.Bytes(r.Range(1, 300)), "random"
		case 2:
			b, kind = repetitive(r, r.Range(10, 3000)), "repetitive"
		case 3:
			b, kind = []byte(r.Pick("\r\n\r\n", "\r\n", "\x00", "jaK", "SIP/2.0 200 OK\r\n\r\n", "SIP/2.0 200 OK\r\n", "BYE sip:a SIP/2.0\r\n\r\n", "INVITE sip:a SIP/2.0\r\nVia: SIP/2.0/UDP a\r\n\r\n", "ACK", "SIP/2.0 099 x\r\n\r\n", "SIP/2.0 700 x\r\n\r\n")), "short"
		case 4, 5:
			b, kind = foreignMsg(r, inv, v), "foreign"
		case 6:
			b, kind = mutate(r, foreignMsg(r, inv, v), foreignMsg(r, inv, v)), "mutated foreign"
		case 7: // the call's own messages cut short within the body, or before the Call-ID
			b = reply{status: 200, tag: "evil", contact: "<sip:evil@192.0.2.66>", body: bodyText("192.0.2.66", 666, 0)}.to(inv)
			if r.Bool() {
				b = newPeer(r, inv).requestBody(r.Pick("BYE", "INVITE"), 7, bodyText("192.0.2.66", 666, 0))
			}
			head := strings.Index(string(b), "\r\n\r\n") + 4
			if r.Bool() {
				b = b[:head+r.IntN(len(b)-head)]
			} else {
				b = b[:r.IntN(strings.Index(string(b), "Call-ID"))]
			}
			return b, "cut own"
		}
		if id := inv.Get("call-id"); !strings.Contains(string(b), ": "+id+"\r") {
			return b, kind
		}
	}
}

// noMessage is a datagram the parser can't accept.
func noMessage(r *mon.Rand) []byte {
	switch r.IntN(3) {
	case 0:
		return nil
	case 1:
		return []byte(r.Pick("\r\n\r\n", "\x00", "jaK", "SIP/2.0 200 OK\r\n", "INVITE sip:a SIP/2.0\r\n", "ACK"))
	}
	return append([]byte{0}, r.Bytes(r.Range(1, 300))...)
}

// insist is barrier for when the datagrams sent before might have filled the
// receive queue, so that a query can get lost.
func (k *call) insist() bool {
	for i := 0; i < 6; i++ {
		k.p.n++
		e := k.ask(k.p.request("OPTIONS", 1000000000+k.p.n))
		if k.v.response(patience/6, e.n, 200, e.m.Get("cseq")) != nil {
			return k.w.flush()
		}
	}
	k.w.fail("no-reply", "keep-alive queries aren't answered after a row of datagrams that are no messages")
	return false
}

func checkC08(x *mon.Ctx) {
	disturb := func(loose bool) func(w *world) {
		return func(w *world) {
			r := w.c.R
			slowReader(w)
			v := w.server(0)
			evil := w.server(0)
			if !w.start(genCall(r, v, callOpt{})) {
				return
			}
			inv := v.request(patience, 0, "INVITE")
			if inv == nil {
				w.fail("no-invite", "no INVITE arrives")
				return
			}
			_, cport := wire.URIHostPort(inv.m.Addr("contact").URI)
			contact := &net.UDPAddr{IP: inv.from.IP, Port: cport}
			var kinds []string
			k := &call{w: w, v: v, inv: inv, p: newPeer(r, inv.m), to: inv.from}
			burst := func(phase string) bool {
				for b := r.Range(0, 3); b > 0; b-- {
					if r.P(0.04) {
						// A long row of what is no message at all.
						n := r.Range(100, 700)
						for i := 0; i < n; i++ {
							from := v
							to := inv.from
							if loose && i%2 == 1 {
								to = contact
							}
							from.s.WriteToUDP(noMessage(r), to)
							if i%30 == 29 {
								time.Sleep(2 * time.Millisecond)
							}
						}
						w.x.Count("hostile datagrams", int64(n))
						w.note("%s: %d datagrams that are no messages", phase, n)
						w.x.Seen(fmt.Sprintf("flood %s %d %v", phase, n/50, loose))
						if !k.insist() {
							return false
						}
						continue
					}
					for i, n := 0, r.Range(1, 15); i < n; i++ {
						raw, kind := junk(r, inv.m, v)
						from, to := v, inv.from
						if r.P(0.3) {
							from, to = evil, contact
						} else if loose && r.Bool() {
							to = contact
						}
						from.s.WriteToUDP(raw, to)
						w.x.Count("hostile datagrams", 1)
						if w.x.Seen(fmt.Sprintf("%s %s %v", phase, raw, loose)) && len(kinds) < 200 {
							kinds = append(kinds, kind)
						}
					}
					if !k.barrier() {
						w.note("hostile datagrams: %v", kinds)
						return false
					}
					w.note("%s: a burst of hostile datagrams", phase)
				}
				return true
			}
			var states, peers []string
			say := func(status int, state string) {
				port := 0
				var body []byte
				if r.P(0.4) && status > 100 {
					port = r.Range(1000, 9000)
					body = bodyText("192.0.2.1", port, 0)
					peers = append(peers, fmt.Sprintf("peer 192.0.2.1:%d", port))
				}
				states = append(states, state)
				v.reply(inv, reply{status: status, tag: "peer", contact: v.contact(), body: body})
			}
			if !burst("start") {
				return
			}
			if r.Bool() {
				say(100, "proceeding")
				if !burst("proceeding") {
					return
				}
			}
			if r.P(0.7) {
				say(180, "ringing")
				if !burst("ringing") {
					return
				}
			}
			say(200, "answered")
			if w.event(patience, 0, "answered") == nil {
				w.fail("no-answer", "the answer is not reported")
				return
			}
			if !burst("answered") {
				return
			}
			if r.Bool() {
				w.hangup()
				b := v.request(patience, 0, "BYE")
				if b == nil {
					w.fail("no-bye", "no BYE after the hang-up")
					return
				}
				if !burst("hanging up") {
					return
				}
				v.reply(b, reply{status: 200})
			} else {
				k.ask(k.p.request("BYE", 1500000000))
			}
			if !w.over() {
				return
			}
			states = append(states, "hangup")
			var gs, gp []string
			for _, e := range w.events() {
				switch e.kind {
				case "state":
					gs = append(gs, e.String())
				case "peer":
					gp = append(gp, e.String())
				case "err":
					w.fail("error", "the call ends with error %v", e.err)
				}
			}
			if fmt.Sprint(gs) != fmt.Sprint(states) {
				w.fail("states", "reported states %v, want %v", gs, states)
			}
			if fmt.Sprint(gp) != fmt.Sprint(peers) {
				w.fail("media", "reported media addresses %v, want %v", gp, peers)
			}
		}
	}
	for _, loose := range []bool{false, true} {
		settings{20000, 2, loose, false}.apply()
		calls(x, fmt.Sprintf("disturb-loose=%v", loose), x.N(250, 5000), 32, disturb(loose))
	}
	// malformed messages of the call itself
	own := func(w *world) {
		r := w.c.R
		v := w.server(0)
		if !w.start(genCall(r, v, callOpt{})) {
			return
		}
		inv := v.request(patience, 0, "INVITE")
		if inv == nil {
			w.fail("no-invite", "no INVITE arrives")
			return
		}
		id := inv.m.Get("call-id")
		odd := func() []byte {
			p := newPeer(r, inv.m)
			uri := func() string {
				return r.Pick("sip:x", "sip:@h", "sip:a@[::1]", "sip:a@[::1]:1", "sip:1.2.3.4:0", "sip:a@127.0.0.1:65535", "sip:a@127.255.255.255:1", "tel:+1", "sips:b@127.0.0.1", "sip:%00@127.0.0.1", "sip:x.invalid", "sip:127.0.0.1;lr", "sip:127.0.0.1;lr=1;lr", "sip:a:b:c@h", "sip:"+v.addr().String(), "sip:"+inv.from.String(), "sip:h?a=b", "sip:"+strings.Repeat("h", 300), "x:y", "sip:")
			}
			addr := func() string {
				a := "<" + uri() + ">"
				if r.P(0.2) {
					a = uri()
				}
				return r.Pick("", "\"x\" ", "x ") + a + r.Pick("", ";tag=peer", ";tag", ";tag=", ";x=\"\"", ";;", ";tag=a;tag=b")
			}
			list := func(f func() string) string {
				l := []string{f()}
				for r.P(0.4) {
					l = append(l, f())
				}
				return strings.Join(l, ",")
			}
			hop := func() string {
				return r.Pick("SIP/2.0/UDP", "SIP/2.0/TCP", "SIP/3.0/X") + " " + r.Pick(inv.from.String(), v.addr().String(), "h", "[::1]:5060", "1.2.3.4:0", "1.2.3.4:65535") +
					r.Pick("", ";branch="+inv.m.Vias()[0].Branch(), ";branch", ";branch=", ";rport=abc;received=x", ";rport=99999", ";received=[", ";branch=z9hG4bK;branch=2")
			}
			n, _ := inv.m.CSeq()
			num := func() string {
				return r.Pick("0", "1", fmt.Sprint(n), fmt.Sprint(n+1), "2147483647", "4294967295", "4294967296", "99999999999999999999", "-1", "x", "")
			}
			method := r.Pick("INVITE", "INVITE", "BYE", "ACK", "OPTIONS", "CANCEL", "FOO")
			start := method + " " + uri() + " SIP/2.0"
			status := 0
			if r.P(0.6) {
				status = []int{100, 180, 183, 200, 200, 200, 200, 301, 302, 302, 404, 487, 503, 600, r.IntN(1000)}[r.IntN(15)]
				start = fmt.Sprintf("SIP/2.0 %03d x", status)
				method = "INVITE"
			}
			hdr := []string{"Via: " + inv.m.List("via")[0], "From: " + inv.m.Get("from"), "To: " + inv.m.Get("to") + ";tag=peer", "Call-ID: " + id,
				"CSeq: " + fmt.Sprintf("%d %s", n, method), "Contact: " + v.contact(), "Max-Forwards: 70"}
			if status == 0 {
				hdr[0] = "Via: " + genHop(r)
				hdr[1], hdr[2] = "From: "+inv.m.Get("to")+";tag=peer", "To: "+inv.m.Get("from")
			}
			for i := range hdr {
				if i == 3 {
					continue
				}
				q := r.Float64()
				if q < 0.1 {
					hdr[i] = ""
				} else if q < 0.3 {
					switch i {
					case 0:
						hdr[i] = "Via: " + list(hop)
						if r.P(0.1) {
							hdr[i] = "Via: " + strings.Repeat(hop()+",", 40) + hop()
						}
					case 1:
						hdr[i] = "From: " + addr()
					case 2:
						hdr[i] = "To: " + addr()
					case 4:
						hdr[i] = "CSeq: " + num() + " " + r.Pick(method, "INVITE", "BYE", "")
					case 5:
						hdr[i] = "Contact: " + list(addr)
					case 6:
						hdr[i] = "Max-Forwards: " + num()
					}
				}
			}
			if r.P(0.4) {
				hdr = append(hdr, "Record-Route: "+list(addr))
			}
			if r.P(0.2) {
				hdr = append(hdr, "Route: "+list(addr))
			}
			var body string
			if r.P(0.5) {
				body = string(bodyText(r.Pick("192.0.2.1", "nonsense", "::1", "0.0.0.0", "x y"), r.Range(0, 70000), r.Pick2(0, 99999)))
				if r.P(0.4) {
					body = string(mutate(r, []byte(body), nil))
				}
				if r.P(0.2) {
					body = ""
				}
				hdr = append(hdr, "Content-Type: "+r.Pick("application/sdp", "application/sdp", "text/plain", "x"), fmt.Sprintf("Content-Length: %d", len(body)))
			}
			r.Shuffle(len(hdr), func(i, j int) { hdr[i], hdr[j] = hdr[j], hdr[i] })
			s := start + "\r\n"
			for _, h := range hdr {
				if h != "" {
					s += h + "\r\n"
				}
			}
			raw := []byte(s + "\r\n" + body)
			if r.P(0.15) {
				raw = mutate(r, raw, p.request("BYE", 3))
			}
			if m, err := sip.ParseMsg(append([]byte{}, raw...)); err == nil && m.CallID == id {
				w.x.Count("malformed own messages the parser accepts", 1)
			}
			w.x.Seen(string(raw))
			return raw
		}
		burst := func(n int) {
			for i := r.IntN(n); i > 0; i-- {
				v.s.WriteToUDP(odd(), inv.from)
				w.x.Count("malformed own messages", 1)
			}
			nap(r, 2*time.Millisecond)
		}
		burst(4)
		if r.P(0.7) {
			v.reply(inv, reply{status: 180, tag: "peer", contact: v.contact()})
			burst(4)
		}
		if r.P(0.3) {
			w.hangup()
			burst(3)
		}
		if r.P(0.8) {
			v.reply(inv, reply{status: 200, tag: "peer", contact: v.contact()})
			burst(6)
		}
		if r.P(0.7) {
			w.event(20*time.Millisecond, 0, "answered")
			w.hangup()
			burst(3)
		}
		v.mute()
		w.killRequest()
		if w.event(time.Second, 0, "closed") != nil {
			w.x.Count("calls that ended", 1)
		}
	}
	for _, loose := range []bool{false, true} {
		settings{60, 1, loose, false}.apply()
		calls(x, fmt.Sprintf("own-loose=%v", loose), x.N(1500, 40000), 48, own)
	}
}

// route sees to it that the request target resolves for a redirect.
func checkC09(x *mon.Ctx) {
	dns.start()
	run := func(loose bool) func(w *world) {
		return func(w *world) {
			r := w.c.R
			slowReader(w)
			dom := fmt.Sprintf("r%d-%d.test", w.c.ID.Index, time.Now().UnixNano()%1000000)
			w.fakes = append(w.fakes, dom)
			n := r.Range(1, 6)
			loop := r.P(0.2)
			srv := make([]*server, n)
			names := make([]string, n)
			for i := range srv {
				port := 0
				if r.P(0.2) {
					port = 5060
				}
				if srv[i] = nil; port == 0 && i > 0 && r.P(0.3) {
					srv[i] = w.beside(srv[i-1])
				} else {
					srv[i] = w.server(port)
				}
				host := srv[i].ip()
				switch r.IntN(4) {
				case 0: // an address record
					host = fmt.Sprintf("h%d.%s", i, dom)
					dns.setA(host, srv[i].addr().IP)
					if port == 0 {
						host += fmt.Sprintf(":%d", srv[i].port())
					}
				case 1: // a service record
					host = fmt.Sprintf("s%d.%s", i, dom)
					dns.setA("t."+host, srv[i].addr().IP)
					dns.setSRV(host, []srvRec{{1, srv[i].port(), "t." + host}})
				default:
					if port == 0 {
						host += fmt.Sprintf(":%d", srv[i].port())
					}
				}
				names[i] = host
			}
			end := r.Pick("accept", "accept", "accept", "reject", "no-contact", "silent", "refused", "unknown")
			limit := 70
			inv := genCall(r, srv[0], callOpt{})
			if r.P(0.3) {
				limit = r.Range(2, 40)
				inv.MaxForwards = limit
			}
			if r.P(0.4) { // preset route
				inv.Request.Host, inv.Request.Port = "first.example", 0
				inv.Route = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: srv[0].ip(), Port: uint16(srv[0].port())}}
				if r.Bool() {
					inv.Route.Uri.Param = &sip.URIParam{Name: "lr"}
				}
				for k := r.Pick2(0, r.IntN(3)); k > 0; k-- {
					inv.Route.Next = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "192.0.2.55", Port: uint16(k), Param: &sip.URIParam{Name: "lr"}}, Next: inv.Route.Next}
				}
			}
			// attempts in order of arrival
			type hop struct {
				e    *entry
				next string // where the redirect leads, "" for the end
			}
			var hops []hop
			done := map[string]bool{}
			handle := func(i int) func(e *entry) {
				return func(e *entry) {
					if e.m.Method != "INVITE" {
						return
					}
					w.mu.Lock()
					b := e.m.Vias()[0].Branch()
					if done[b] {
						w.mu.Unlock()
						return
					}
					done[b] = true
					h := hop{e: e}
					last := !loop && len(hops) >= n-1
					next := (i + 1) % n
					var rep reply
					if !last {
						h.next = fmt.Sprintf("sip:%s%s%s", r.Pick("", "new@", "u@"), names[next], r.Pick("", "", ";transport=udp", ";x=y"))
						contact := "<" + h.next + ">"
						switch r.IntN(4) {
						case 0:
							contact = "\"Moved, here\" " + contact + ";q=0.5;expires=60"
						case 1:
							contact += ", <sip:second@192.0.2.66>"
						}
						rep = reply{status: r.Pick2(301, 302), tag: fmt.Sprintf("t%d", len(hops)), contact: contact, lines: []string{"Record-Route: <sip:192.0.2.66;lr>"}}
					} else {
						switch end {
						case "accept":
							rep = reply{status: 200, tag: "peer", contact: srv[i].contact()}
						case "reject":
							rep = reply{status: 404, tag: "peer"}
						case "no-contact":
							rep = reply{status: r.Pick2(301, 302), tag: "peer"}
						case "refused":
							h.next = "sip:" + closedPort(r).String()
							rep = reply{status: 302, tag: "peer", contact: "<" + h.next + ">"}
						case "unknown":
							h.next = "sip:nowhere." + dom
							rep = reply{status: 302, tag: "peer", contact: "<" + h.next + ">"}
						}
					}
					hops = append(hops, h)
					var sts []int
					if r.P(0.4) {
						from := r.IntN(3)
						sts = provisional[from:r.Range(from+1, 3)]
					}
					dup := r.P(0.2)
					w.mu.Unlock()
					if rep.status == 0 {
						return
					}
					for _, st := range sts {
						srv[i].reply(e, reply{status: st, tag: "early"})
					}
					srv[i].reply(e, rep)
					if dup && rep.status != 200 {
						srv[i].reply(e, rep)
					}
				}
			}
			for i := range srv {
				srv[i].handle(handle(i))
			}
			if !w.start(inv) {
				return
			}
			wantHops := n
			failed := limit < n+1 || loop // might run out of hops
			if !failed && end == "accept" {
				if w.event(patience, 0, "answered") == nil {
					w.fail("no-answer", "the call does not follow the redirects to the server that accepts it: %v", names)
					return
				}
				last := srv[n-1]
				if last.request(patience, 0, "ACK") == nil {
					w.fail("no-ack", "the answer is not acknowledged")
					return
				}
				w.mu.Lock()
				e := hops[len(hops)-1].e
				w.mu.Unlock()
				k := &call{w: w, v: last, inv: e, p: newPeer(r, e.m), to: e.from}
				if !k.end() {
					return
				}
			} else {
				if w.event(patience*2, 0, "closed") == nil {
					w.fail("unfinished", "the call does not end; %s, loop=%v, hop limit %d", end, loop, limit)
					return
				}
				var re *sip.ResponseError
				err := hasErr(w)
				if err == nil {
					w.fail("error", "the call ends without error; %s, loop=%v, hop limit %d", end, loop, limit)
					return
				}
				if !failed && (end == "reject" || end == "no-contact") && !errors.As(err, &re) {
					w.fail("error", "the call ends with %v instead of the response that ended it", err)
				}
				if loop && errors.As(err, &re) {
					w.fail("error", "endless redirects end with %v", err)
				}
			}
			w.flush()
			if !failed && len(hops) != wantHops {
				w.fail("attempts", "%d attempts for %d servers", len(hops), n)
				return
			}
			if len(hops) > limit {
				w.fail("attempts", "%d attempts with a hop limit of %d", len(hops), limit)
				return
			}
			if loop && len(hops) < 2 && limit > 3 {
				w.fail("attempts", "only %d attempts with a hop limit of %d", len(hops), limit)
				return
			}
			branches := map[string]bool{}
			for i, h := range hops {
				b := h.e.m.Vias()[0].Branch()
				if branches[b] {
					w.fail("branch", "attempt %d uses the branch of an earlier one", i)
					return
				}
				branches[b] = true
				if !viaIsReal(w, h.e, loose) {
					return
				}
				if i == 0 {
					continue
				}
				first := hops[0].e.m
				for _, hd := range []string{"call-id", "from", "to"} {
					if h.e.m.Get(hd) != first.Get(hd) {
						w.fail("identity", "attempt %d has %s %q, the first had %q", i, hd, h.e.m.Get(hd), first.Get(hd))
						return
					}
				}
				if string(h.e.m.Body) != string(first.Body) {
					w.fail("identity", "attempt %d has another body than the first", i)
					return
				}
				if h.e.m.URI != hops[i-1].next {
					w.fail("target", "attempt %d has target %q, redirected to %q", i, h.e.m.URI, hops[i-1].next)
					return
				}
				if r := h.e.m.All("route"); len(r) > 0 {
					w.fail("route", "attempt %d still has the route %q", i, r)
					return
				}
				if !loop && h.e.srv != srv[i] || loop && h.e.srv != srv[i%n] {
					w.fail("destination", "attempt %d was sent to %s", i, h.e.srv.name)
					return
				}
			}
			for i, h := range hops {
				if h.next == "" && end == "silent" && !loop {
					continue
				}
				if i == len(hops)-1 && failed {
					continue
				}
				if n := w.count(func(e *entry) bool { return isAck(e) && e.m.Vias()[0].Branch() == h.e.m.Vias()[0].Branch() }); n < 1 {
					w.fail("acks", "the answer to attempt %d was not acknowledged", i)
					return
				}
			}
			w.x.Seen(fmt.Sprintf("%d servers, loop=%v, %s, limit %d, %v", n, loop, end, limit, loose))
			w.x.Count("redirects followed", int64(len(hops)-1))
		}
	}
	byes := func(w *world) {
		r := w.c.R
		v := w.server(0)
		other := w.server(0)
		if !w.start(genCall(r, v, callOpt{})) {
			return
		}
		k := w.up(v, upOpt{})
		if k == nil {
			return
		}
		w.hangup()
		b := v.request(patience, 0, "BYE")
		if b == nil {
			w.fail("no-bye", "no BYE after the hang-up")
			return
		}
		status := []int{301, 302, 503, 481, 500}[r.IntN(5)]
		contact := r.Pick("", other.contact())
		v.reply(b, reply{status: status, contact: contact})
		if !w.over() {
			return
		}
		var re *sip.ResponseError
		if err := hasErr(w); !errors.As(err, &re) || re.Msg == nil || re.Msg.Status != status {
			w.fail("error", "after a BYE was answered %d, the call ends with %v", status, err)
		}
		w.flush()
		if n := len(transmissions(w, "INVITE")); n != 1 {
			w.fail("new-call", "a %d answer to BYE starts a new call (%d INVITEs)", status, n)
		}
		if n := w.count(func(e *entry) bool { return e.kind == "recv" && e.srv == other }); n != 0 {
			w.fail("new-call", "a %d answer to BYE makes the call turn to its contact", status)
		}
		w.x.Seen(fmt.Sprintf("bye %d %v", status, contact != ""))
	}
	for _, loose := range []bool{false, true} {
		settings{300, 1, loose, false}.apply()
		calls(x, fmt.Sprintf("redirects-loose=%v", loose), x.N(300, 5000), 24, run(loose))
		settings{5000, 1, loose, false}.apply()
		calls(x, fmt.Sprintf("bye-loose=%v", loose), x.N(60, 600), 24, byes)
	}
}

func openSockets() int {
	n := 0
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

func checkC10(x *mon.Ctx) {
	dns.start()
	// A collected socket would be closed; leaks shall stay visible.
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(6 << 30)
	endings := []string{"peer-bye", "hang-up", "rejected", "refused", "silent", "no-contact", "too-big", "unknown", "cancelled", "bye-silent", "bye-rejected", "bye-refused",
		"re-invite-silent", "no-hops", "hop-limit", "version", "redirect-unknown", "early-bye", "cancel-silent", "no-ok-contact"}
	run := func(w *world) {
		r := w.c.R
		slowReader(w)
		if r.P(0.2) {
			w.slow = func() time.Duration { return 15 * time.Millisecond }
		}
		dom := fmt.Sprintf("e%d-%d.test", w.c.ID.Index, time.Now().UnixNano()%1000000)
		w.fakes = append(w.fakes, dom)
		end := endings[w.c.ID.Index%len(endings)]
		v := w.server(0)
		target := v.addr()
		if end == "refused" {
			target = closedPort(r)
		}
		// how the call gets to its last server
		how := r.Pick("direct", "direct", "failover", "redirect")
		first := v
		o := callOpt{}
		var recs []srvRec
		switch how {
		case "failover":
			o.host = dom
			for i, n := 0, r.Range(1, 3); i < n; i++ {
				host := fmt.Sprintf("f%d.%s", i, dom)
				switch r.IntN(4) {
				case 0: // silent
					s := w.server(0)
					dns.setA(host, s.addr().IP)
					recs = append(recs, srvRec{i + 1, s.port(), host})
				case 1: // refused
					a := closedPort(r)
					dns.setA(host, a.IP)
					recs = append(recs, srvRec{i + 1, a.Port, host})
				case 2: // does not exist
					recs = append(recs, srvRec{i + 1, 5060, host})
				case 3:
					s := w.server(0)
					dns.setA(host, s.addr().IP)
					recs = append(recs, srvRec{i + 1, s.port(), host})
					s.handle(func(e *entry) {
						if e.m.Method == "INVITE" {
							s.reply(e, reply{status: 503, tag: "x"})
						}
					})
				}
			}
			dns.setA("last."+dom, target.IP)
			recs = append(recs, srvRec{100, target.Port, "last." + dom})
			dns.setSRV(dom, recs)
		case "redirect":
			for i, n := 0, r.Range(1, 3); i < n; i++ {
				s := w.server(0)
				to := target.String()
				if i > 0 {
					to = first.addr().String()
				}
				s.handle(func(e *entry) {
					if e.m.Method == "INVITE" {
						s.reply(e, reply{status: 302, tag: "x", contact: "<sip:" + to + ">"})
					}
				})
				first = s
			}
		}
		inv := genCall(r, first, o)
		if how != "redirect" && end == "refused" && o.host == "" {
			inv.Request.Host, inv.Request.Port = target.IP.String(), uint16(target.Port)
		}
		switch end {
		case "too-big":
			inv.Payload = &sip.MiscPayload{T: "x/y", D: make([]byte, 70000)}
		case "unknown":
			inv.Request.Host, inv.Request.Port = "nowhere."+dom, 0
			inv.Route = nil
		case "hop-limit":
			inv.MaxForwards = 1
		}
		w.note("%s, then %s", how, end)
		w.c.Note(how + ", then " + end)
		if !w.start(inv) {
			return
		}
		req := func() *entry {
			e := v.request(patience, 0, "INVITE")
			if e == nil {
				w.fail("no-invite", "no INVITE arrives (%s)", how)
			}
			return e
		}
		up := func() *call {
			return w.up(v, upOpt{provisional: provisional[:r.IntN(4)], body: bodyText("192.0.2.1", 4000, 0)})
		}
		wantErr := true
		switch end {
		case "peer-bye":
			k := up()
			if k == nil || !k.end() {
				return
			}
			wantErr = false
		case "early-bye":
			if e := req(); e != nil {
				v.reply(e, reply{status: 180, tag: "peer", contact: v.contact()})
				v.send(e.from, newPeer(r, e.m).request("BYE", 5))
			}
			wantErr = false
		case "hang-up", "bye-silent", "bye-rejected", "bye-refused":
			o := upOpt{}
			if end == "bye-refused" {
				o.contact = "<sip:" + closedPort(r).String() + ">"
			} else if r.Bool() { // the BYE goes elsewhere
				o.contact = w.server(0).contact()
			}
			k := w.up(v, o)
			if k == nil {
				return
			}
			w.hangup()
			if end == "hang-up" || end == "bye-rejected" {
				b := w.find(patience, 0, func(e *entry) bool { return isReq(e, "BYE") })
				if b == nil {
					w.fail("no-bye", "no BYE after the hang-up")
					return
				}
				st := 200
				if end == "bye-rejected" {
					st = []int{481, 403, 500, 302, 503}[r.IntN(5)]
				}
				b.srv.reply(b, reply{status: st})
				wantErr = st != 200
			}
		case "rejected":
			if e := req(); e != nil {
				v.reply(e, reply{status: []int{404, 486, 603, 500, 300}[r.IntN(5)], tag: "peer"})
			}
		case "no-contact":
			if e := req(); e != nil {
				v.reply(e, reply{status: 302, tag: "peer"})
			}
		case "no-ok-contact":
			if e := req(); e != nil {
				raw := reply{status: 200, tag: "peer"}.to(e.m)
				v.send(e.from, raw)
			}
		case "redirect-unknown":
			if e := req(); e != nil {
				v.reply(e, reply{status: 302, tag: "peer", contact: "<sip:nowhere." + dom + ">"})
			}
		case "cancelled", "cancel-silent":
			if e := req(); e != nil {
				if r.Bool() {
					v.reply(e, reply{status: 180, tag: "peer"})
				}
				w.hangup()
				if v.request(patience, e.n, "CANCEL") == nil {
					w.fail("no-cancel", "no CANCEL arrives")
					return
				}
				if end == "cancelled" {
					v.reply(e, reply{status: 487, tag: "peer"})
				} else if w.states() != nil { // ends only with the peer's help
					v.send(e.from, newPeer(r, e.m).request("BYE", 5))
					wantErr = false
				}
			}
			if end == "cancel-silent" {
				// Either the INVITE times out or the BYE ends it.
				wantErr = false
				if e := v.request(0, 0, "INVITE"); e != nil && w.event(time.Second, 0, "closed") == nil {
					v.send(e.from, newPeer(r, e.m).request("BYE", 6))
				}
			}
		case "re-invite-silent":
			k := up()
			if k == nil {
				return
			}
			k.ask(k.p.requestBody("INVITE", 9, bodyText("192.0.2.9", 5000, 0), "Contact: "+v.contact()))
		case "no-hops":
			k := up()
			if k == nil {
				return
			}
			k.ask(k.p.request("OPTIONS", 9, "Max-Forwards: 0"))
		case "version":
			k := up()
			if k == nil {
				return
			}
			k.ask(k.p.request("OPTIONS", 9, "!OPTIONS sip:x SIP/3.0"))
		}
		// and some more traffic while it ends
		if r.P(0.4) {
			for _, e := range w.snapshot() {
				if isReq(e, "INVITE") {
					for i, n := 0, r.IntN(6); i < n; i++ {
						raw, _ := junk(r, e.m, e.srv)
						e.srv.s.WriteToUDP(raw, e.from)
					}
				}
			}
		}
		if !w.over() {
			return
		}
		if hasErr(w) == nil && wantErr {
			w.fail("error", "%s, then %s: the call ends without error", how, end)
		}
		if left := w.c.Leftover(5*time.Second, "jart/gosip/"); left != "" {
			w.fail("goroutines", "%s, then %s: after the call ended this still runs\n%s", how, end, left)
			return
		}
		ports := map[string]*net.UDPAddr{}
		for _, e := range w.snapshot() {
			if e.kind == "recv" && e.m != nil && e.from != nil {
				ports[e.from.String()] = e.from
				if _, p := wire.URIHostPort(e.m.Addr("contact").URI); p > 0 && e.m.Method != "" {
					a := &net.UDPAddr{IP: e.from.IP, Port: p}
					ports[a.String()] = a
				}
			}
		}
		for _, a := range ports {
			end := time.Now().Add(3 * time.Second)
			for udpOpen(a.Port, a.IP) {
				if time.Now().After(end) {
					w.late("port-held", "after the call ended port %v is still bound", a)
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			w.x.Count("ports freed", 1)
		}
		w.x.Seen(how + ", then " + end)
	}
	for _, loose := range []bool{false, true} {
		settings{200, 1, loose, false}.apply()
		base := openSockets()
		n := x.N(300, 4000)
		calls(x, fmt.Sprintf("endings-loose=%v", loose), n, 16, run)
		x.Run(fmt.Sprintf("sockets-loose=%v", loose), 1, 1, func(c *mon.C) {
			left := 0
			for i := 0; i < 30; i++ {
				if left = openSockets() - base; left <= 0 {
					break
				}
				time.Sleep(100 * time.Millisecond)
			}
			if left > 0 && x.Only == nil {
				c.FailAll("sockets", "after all calls ended %d more sockets are open than before", left)
			}
			c.Count("sockets checked", int64(n))
		})
	}
}

func init() {
	udp := []string{"loopback UDP delivers the datagrams of one socket in order and, for short bursts, without loss"}
	names := "name lookups go to a scripted name server through net.DefaultResolver"
	mon.Register(&mon.Check{ID: "C08", CaseLimit: 90 * time.Second, Race: true, Assumptions: udp, Run: checkC08,
		Rule: "calls under bursts of random, repetitive, mutated, truncated and foreign datagrams in every phase, from the peer and from strangers, after each of which the call must answer its peer and report exactly its own events; and calls fed with malformed messages of their own; non-trivial means a distinct datagram in a distinct phase"})
	mon.Register(&mon.Check{ID: "C09", CaseLimit: 120 * time.Second, Assumptions: append(udp, names), Run: checkC09,
		Rule: "chains and cycles of one to six redirecting servers under several hop limits, ending in every way, and redirects of BYE; every attempt is compared with the redirect that caused it; non-trivial means a distinct chain"})
	mon.Register(&mon.Check{ID: "C10", CaseLimit: 120 * time.Second, Race: true, Assumptions: append(udp, names), Run: checkC10,
		Rule: "twenty ways for a call to end, directly or after failing over or being redirected, with quick and slow applications; afterwards the channels, the goroutines the call started, its ports and the number of open sockets are inspected; non-trivial means a distinct way"})
}

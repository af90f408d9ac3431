package checks

import (
	"fmt"
	"net"
	"strings"
	"time"

	"verif/mon"
	"verif/wire"
)

// sameAddrHeader compares an address header of two messages by what they mean.
func sameAddrHeader(w *world, what, h string, got, want *wire.Msg) bool {
	g, n := got.Addr(h), want.Addr(h)
	if fmt.Sprint(g) != fmt.Sprint(n) {
		w.fail(what+"-"+h, "%s has %s %q, want %q", what, h, got.Get(h), want.Get(h))
		return false
	}
	return true
}

// judgeCancel checks a CANCEL against its INVITE.
func judgeCancel(w *world, can, inv *entry) bool {
	bad := func(what, got, want string) bool {
		w.fail("cancel-"+what, "the CANCEL has %s %q, the INVITE %q", what, got, want)
		return false
	}
	if can.m.URI != inv.m.URI {
		return bad("target", can.m.URI, inv.m.URI)
	}
	if g, n := can.m.Get("call-id"), inv.m.Get("call-id"); g != n {
		return bad("callid", g, n)
	}
	n, _ := inv.m.CSeq()
	if g, m := can.m.CSeq(); g != n || m != "CANCEL" {
		return bad("cseq", can.m.Get("cseq"), inv.m.Get("cseq"))
	}
	if g, n := fmt.Sprint(can.m.Vias()), fmt.Sprint(inv.m.Vias()); g != n {
		return bad("via", g, n)
	}
	if g, n := fmt.Sprint(can.m.Addrs("route")), fmt.Sprint(inv.m.Addrs("route")); g != n {
		return bad("route", g, n)
	}
	if can.srv != inv.srv || can.from.String() != inv.from.String() {
		return bad("path", can.srv.name+" from "+can.from.String(), inv.srv.name+" from "+inv.from.String())
	}
	return sameAddrHeader(w, "the CANCEL", "from", can.m, inv.m) && sameAddrHeader(w, "the CANCEL", "to", can.m, inv.m)
}

// judgeBye checks a BYE against the call.
func judgeBye(w *world, bye *entry, inv, ok *wire.Msg, contact string, dest *server, loose bool) bool {
	bad := func(what, got, want string) bool {
		w.fail("bye-"+what, "the BYE has %s %q, want %q", what, got, want)
		return false
	}
	var set []wire.Addr
	for _, a := range ok.Addrs("record-route") {
		set = append([]wire.Addr{a}, set...)
	}
	uri := contact
	var routes []string
	for _, a := range set {
		routes = append(routes, a.URI)
	}
	if len(set) > 0 && !strings.Contains(set[0].URI, ";lr") {
		uri = set[0].URI
		routes = append(routes[1:], contact)
	}
	if bye.m.URI != uri {
		return bad("target", bye.m.URI, uri)
	}
	var got []string
	for _, a := range bye.m.Addrs("route") {
		got = append(got, a.URI)
	}
	if strings.Join(got, " ") != strings.Join(routes, " ") {
		return bad("route", strings.Join(got, " "), strings.Join(routes, " "))
	}
	if bye.srv != dest {
		return bad("destination", bye.srv.name, dest.name)
	}
	if g, n := bye.m.Get("call-id"), inv.Get("call-id"); g != n {
		return bad("callid", g, n)
	}
	n, _ := inv.CSeq()
	if g, m := bye.m.CSeq(); g <= n || m != "BYE" {
		return bad("cseq", bye.m.Get("cseq"), fmt.Sprintf("more than %d and BYE", n))
	}
	if g, n := bye.m.Addr("from"), inv.Addr("from"); !sameParty(g, n) {
		return bad("from", bye.m.Get("from"), inv.Get("from"))
	}
	if g, n := bye.m.Addr("to"), ok.Addr("to"); !sameParty(g, n) {
		return bad("to", bye.m.Get("to"), ok.Get("to"))
	}
	for _, v := range inv.Vias() {
		if v.Branch() == bye.m.Vias()[0].Branch() {
			return bad("branch", v.Branch(), "a new one")
		}
	}
	return viaIsReal(w, bye, loose)
}

func checkC05(x *mon.Ctx) {
	dns.start()
	cancel := func(w *world) {
		r := w.c.R
		slowReader(w)
		v := w.server(0)
		var o callOpt
		how := r.Pick("direct", "loose-route", "strict-route", "failover", "redirect", "spare")
		first := v
		var spare *server
		// the servers a name leads to, in order
		srv := func(ss ...*server) {
			o.host = fmt.Sprintf("c%d-%d.test", w.c.ID.Index, time.Now().UnixNano()%1000000)
			w.fakes = append(w.fakes, o.host)
			var recs []srvRec
			for i, s := range ss {
				name := string(rune('a'+i)) + "." + o.host
				dns.setA(name, s.addr().IP)
				recs = append(recs, srvRec{i + 1, s.port(), name})
			}
			dns.setSRV(o.host, recs)
		}
		switch how {
		case "loose-route":
			o.host = "target.example"
			o.routes = []string{fmt.Sprintf("sip:proxy@%s;lr", v.addr()), "sip:p2.example;lr"}[:r.Range(1, 2)]
		case "strict-route":
			o.host = "target.example"
			o.routes = []string{fmt.Sprintf("sip:proxy@%s", v.addr()), "sip:p2.example;lr"}[:r.Range(1, 2)]
		case "failover":
			first = w.server(0)
			if r.Bool() {
				spare = w.server(0)
				srv(first, v, spare)
			} else {
				srv(first, v)
			}
			first.handle(func(e *entry) {
				if e.m.Method == "INVITE" {
					first.reply(e, reply{status: 503, tag: "x"})
				}
			})
		case "spare":
			spare = w.server(0)
			srv(v, spare)
		case "redirect":
			first = w.server(0)
			first.handle(func(e *entry) {
				if e.m.Method == "INVITE" {
					first.reply(e, reply{status: 302, tag: "x", contact: v.contact()})
				}
			})
		}
		if !w.start(genCall(r, first, o)) {
			return
		}
		inv := v.request(patience, 0, "INVITE")
		if inv == nil {
			w.fail("no-invite", "no INVITE arrives (%s)", how)
			return
		}
		var last int
		for i, n := 0, r.IntN(4); i < n; i++ {
			last = []int{100, 180, 183, 181}[r.IntN(4)]
			tag := "peer"
			if last == 100 {
				tag = ""
			}
			v.reply(inv, reply{status: last, tag: tag, contact: v.contact()})
			nap(r, 2*time.Millisecond)
		}
		presses := r.Pick2(1, r.Range(1, 3))
		w.hangup()
		can := v.request(patience, 0, "CANCEL")
		if can == nil {
			w.fail("no-cancel", "a hang-up before the answer sends no CANCEL (%s)", how)
			return
		}
		if !judgeCancel(w, can, inv) {
			return
		}
		for i := 1; i < presses; i++ {
			m := v.mark()
			w.hangup()
			if e := v.request(patience, m.n, "CANCEL"); e == nil || !judgeCancel(w, e, inv) {
				w.fail("no-cancel", "another hang-up sends no CANCEL")
				return
			}
		}
		end := r.Pick("487", "487", "486", "answered")
		if spare != nil {
			end = r.Pick("487", "503", "503", "answered")
		}
		if r.P(0.15) {
			end = "redirect"
		}
		switch end {
		case "redirect": // crossed the CANCEL, and is not to be followed any more
			if spare == nil {
				spare = w.server(0)
			}
			if r.Bool() {
				v.reply(can, reply{status: r.IntN(2)*281 + 200})
			}
			st := 301 + r.IntN(2)
			v.reply(inv, reply{status: st, tag: "peer", contact: spare.contact()})
			w.rejectedWith(st)
		case "503": // no reason any more to try the next server
			if r.Bool() {
				v.reply(can, reply{status: 200})
			}
			v.reply(inv, reply{status: 503, tag: "peer"})
			w.over()
			if hasErr(w) == nil {
				w.fail("error", "a call that is hung up and then refused ends without an error")
			}
		case "answered": // the answer crossed the CANCEL
			if r.Bool() {
				v.reply(can, reply{status: 481})
			}
			contact := fmt.Sprintf("sip:late@%s", v.addr())
			ok := v.reply(inv, reply{status: 200, tag: "late", contact: "<" + contact + ">"})
			if w.event(patience, 0, "answered") == nil {
				w.fail("no-answer", "an answer that crosses the CANCEL is not reported")
				return
			}
			w.hangup()
			bye := v.request(patience, 0, "BYE")
			if bye == nil {
				w.fail("no-bye", "no BYE after the answer")
				return
			}
			if !judgeBye(w, bye, inv.m, ok.m, contact, v, *looseNow) {
				return
			}
			v.reply(bye, reply{status: 200})
			w.over()
			if ev := w.events(); len(ev) < 2 || ev[len(ev)-2].String() != "hangup" {
				w.fail("no-hangup", "the confirmed BYE is not reported as hang-up")
			}
		default:
			st := 487
			if end == "486" {
				st = 486
			}
			if r.Bool() {
				v.reply(can, reply{status: 200})
			}
			v.reply(inv, reply{status: st, tag: "peer"})
			w.rejectedWith(st)
		}
		w.flush()
		if w.count(func(e *entry) bool { return e.kind == "recv" && e.srv == spare }) > 0 {
			w.fail("after-hangup", "another server is tried after the hang-up")
			return
		}
		if n := w.count(func(e *entry) bool { return isReq(e, "CANCEL") }); n != presses {
			w.fail("cancel-count", "%d hang-ups sent %d CANCELs", presses, n)
		}
		if n := w.count(func(e *entry) bool { return isReq(e, "BYE") }); n != 0 && end != "answered" {
			w.fail("bye-unanswered", "BYE for a call that was not answered")
		}
		w.x.Seen(fmt.Sprintf("cancel %s after %d, %s, %d presses", how, last, end, presses))
	}
	bye := func(w *world) {
		r := w.c.R
		slowReader(w)
		v := w.server(0)
		dom := fmt.Sprintf("b%d-%d.test", w.c.ID.Index, time.Now().UnixNano()%1000000)
		w.fakes = append(w.fakes, dom)
		names := 0
		// a server of its own and how to name it
		place := func() (*server, string) {
			port := 0
			if r.P(0.3) {
				port = 5060
			}
			s := w.server(port)
			host := s.ip()
			if r.P(0.4) {
				names++
				host = fmt.Sprintf("n%d.%s", names, dom)
				dns.setA(host, s.addr().IP)
				if r.Bool() { // no use for these now
					dns.setSRV(host, []srvRec{{1, 9, "nowhere." + dom}})
				}
			}
			if port == 0 {
				host += fmt.Sprintf(":%d", s.port())
			}
			return s, host
		}
		if !w.start(genCall(r, v, callOpt{})) {
			return
		}
		inv := v.request(patience, 0, "INVITE")
		if inv == nil {
			w.fail("no-invite", "no INVITE arrives")
			return
		}
		var rr []string
		kind := ""
		dest := v
		contact := fmt.Sprintf("sip:peer@%s", v.addr())
		nRR := 0
		if r.P(0.6) {
			nRR = r.Range(1, 3)
		}
		for i := 0; i < nRR; i++ {
			host := fmt.Sprintf("p%d.example:%d", i, r.Range(1000, 6000))
			if i == nRR-1 {
				dest = v
				host = v.addr().String()
				if r.Bool() {
					dest, host = place()
				}
			}
			lr := ";lr"
			if r.P(0.3) {
				lr = ""
			}
			kind += lr + " "
			rr = append(rr, fmt.Sprintf("<sip:%s%s%s>", r.Pick("", "u@"), host, lr))
		}
		// where the peer is to be reached from now on
		target := func() string {
			if nRR > 0 {
				return fmt.Sprintf("sip:u%d@198.51.100.%d:%d", r.IntN(1000), r.Range(1, 254), r.Range(1024, 65535))
			}
			var host string
			dest, host = v, v.addr().String()
			if r.P(0.7) {
				dest, host = place()
			}
			return fmt.Sprintf("sip:%s%s%s", r.Pick("", "peer@", "p%20q@"), host, r.Pick("", ";transport=udp", ";x=y"))
		}
		contact = target()
		lure := w.server(0) // never to be contacted
		lureC := fmt.Sprintf("<sip:lure@%s>", lure.addr())
		for i, n := 0, r.IntN(4); i < n; i++ {
			v.reply(inv, reply{status: provisional[r.IntN(3)], tag: r.Pick("peer", "fork"), contact: lureC, lines: []string{"Record-Route: <sip:" + lure.addr().String() + ";lr>"}})
			nap(r, 2*time.Millisecond)
		}
		k := w.answer(v, inv, upOpt{contact: "<" + contact + ">", rr: rr, body: bodyText("192.0.2.1", 4000, 0)})
		if k == nil {
			return
		}
		// The route set is settled by the answer.
		noRoute := func() []string {
			if r.P(0.4) {
				return []string{"Record-Route: <sip:" + lure.addr().String() + ";lr>"}
			}
			return nil
		}
		seq := r.Range(1, 1000)
		var steps []string
		for i, n := 0, r.IntN(6); i < n; i++ {
			step := r.Pick("move", "move", "stay", "stale", "foreign", "options", "update", "again", "fork", "ringing")
			steps = append(steps, step)
			seq += r.Range(1, 3)
			var e *entry
			want := 200
			switch step {
			case "move":
				contact = target()
				e = k.ask(k.p.requestBody("INVITE", seq, bodyText("192.0.2.2", 4002, 0), append(noRoute(), "Contact: <"+contact+">")...))
			case "stay":
				e = k.ask(k.p.requestBody("INVITE", seq, bodyText("192.0.2.3", 4002, 0), noRoute()...))
			case "stale":
				e = k.ask(k.p.request("INVITE", seq, "Contact: <"+contact+">"))
				v.response(patience, e.n, 200, e.m.Get("cseq"))
				k.ask(k.p.request("ACK", seq))
				e = k.ask(k.p.request("INVITE", seq-1, "Contact: "+lureC, "Record-Route: <sip:"+lure.addr().String()+";lr>"))
				want = 500
			case "foreign":
				e = k.ask(k.p.request("INVITE", seq, "Contact: "+lureC, "Call-ID: of-another-call"))
				want = 481
			case "options":
				e = k.ask(k.p.request("OPTIONS", seq, "Contact: "+lureC, "Record-Route: <sip:"+lure.addr().String()+";lr>"))
			case "update":
				e = k.ask(k.p.request("UPDATE", seq, "Contact: "+lureC))
				want = 405
			case "again":
				v.send(inv.from, k.ok.raw)
			case "fork":
				v.reply(inv, reply{status: 200, tag: "fork", contact: lureC, lines: []string{"Record-Route: <sip:" + lure.addr().String() + ";lr>"}})
			case "ringing":
				v.reply(inv, reply{status: 180, tag: "fork", contact: lureC})
			}
			if e != nil {
				if v.response(patience, e.n, want, e.m.Get("cseq")) == nil {
					w.fail("no-reply", "no %d response to %s", want, step)
					return
				}
				if e.m.Method == "INVITE" && want == 200 && r.P(0.7) { // or the ACK gets lost
					k.ask(k.p.request("ACK", seq))
				}
			}
			nap(r, 2*time.Millisecond)
		}
		k.p.n = seq
		e := k.ask(k.p.request("OPTIONS", seq+1))
		if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
			w.fail("no-reply", "a keep-alive query is not answered")
			return
		}
		w.hangup()
		b := w.find(patience, 0, func(e *entry) bool { return isReq(e, "BYE") })
		if b == nil {
			w.fail("no-bye", "a hang-up after the answer sends no BYE; route set %v, contact %s", rr, contact)
			return
		}
		if !judgeBye(w, b, inv.m, k.ok.m, contact, dest, *looseNow) {
			return
		}
		nap(r, 3*time.Millisecond)
		for _, e := range w.events() {
			if e.String() == "hangup" {
				w.fail("early-hangup", "hung up is reported before the peer confirmed")
				return
			}
		}
		presses := r.Pick2(1, r.Range(1, 4))
		byes := []*entry{b}
		for i := 1; i < presses; i++ { // the application insists
			last := byes[i-1]
			m := b.srv.mark()
			w.hangup()
			e := b.srv.request(patience, m.n, "BYE")
			if e == nil {
				w.fail("no-bye", "another hang-up sends no BYE")
				return
			}
			if !judgeBye(w, e, inv.m, k.ok.m, contact, dest, *looseNow) {
				return
			}
			a, _ := last.m.CSeq()
			z, _ := e.m.CSeq()
			if z <= a {
				w.fail("bye-cseq", "another BYE has the number %d, the one before had %d", z, a)
				return
			}
			for _, o := range byes {
				if o.m.Vias()[0].Branch() == e.m.Vias()[0].Branch() {
					w.fail("bye-branch", "two BYEs have the same branch")
					return
				}
			}
			byes = append(byes, e)
		}
		b.srv.reply(byes[presses-1], reply{status: 200})
		if !w.over() {
			return
		}
		if ev := w.events(); len(ev) < 2 || ev[len(ev)-2].String() != "hangup" || hasErr(w) != nil {
			w.fail("no-hangup", "the confirmed BYE is not reported as hang-up")
		}
		w.flush()
		if n := w.count(func(e *entry) bool { return isReq(e, "BYE") }); n != presses {
			w.fail("bye-count", "%d hang-ups sent %d BYEs", presses, n)
		}
		if n := w.count(func(e *entry) bool { return isReq(e, "CANCEL") }); n != 0 {
			w.fail("cancel-answered", "CANCEL for a call that was answered")
		}
		if n := w.count(func(e *entry) bool { return e.srv == lure && e.kind == "recv" }); n != 0 {
			w.fail("lured", "a server that has no part in the call was contacted")
		}
		w.x.Seen(fmt.Sprintf("bye rr=%q own=%v steps %v", kind, dest == v, steps))
	}
	// hang-up and answer at the same time
	crossing := func(w *world) {
		r := w.c.R
		v := w.server(0)
		if !w.start(genCall(r, v, callOpt{})) {
			return
		}
		inv := v.request(patience, 0, "INVITE")
		if inv == nil {
			w.fail("no-invite", "no INVITE arrives")
			return
		}
		if r.Bool() {
			v.reply(inv, reply{status: 180, tag: "peer", contact: v.contact()})
		}
		d1, d2 := time.Duration(r.IntN(200))*time.Microsecond, time.Duration(r.IntN(200))*time.Microsecond
		contact := fmt.Sprintf("sip:peer@%s", v.addr())
		var ok *entry
		done := make(chan bool)
		go func() {
			time.Sleep(d1)
			ok = v.reply(inv, reply{status: 200, tag: "peer", contact: "<" + contact + ">"})
			close(done)
		}()
		time.Sleep(d2)
		w.hangup()
		<-done
		if w.event(patience, 0, "answered") == nil {
			w.fail("no-answer", "the answer is not reported")
			return
		}
		first := w.find(patience, 0, func(e *entry) bool { return isReq(e, "CANCEL") || isReq(e, "BYE") })
		if first == nil {
			w.fail("no-cancel", "a hang-up sends neither CANCEL nor BYE")
			return
		}
		b := first
		if first.m.Method == "CANCEL" {
			if !judgeCancel(w, first, inv) {
				return
			}
			v.reply(first, reply{status: r.Pick2(200, 481)})
			w.hangup()
			if b = v.request(patience, 0, "BYE"); b == nil {
				w.fail("no-bye", "no BYE after the answer")
				return
			}
		}
		if !judgeBye(w, b, inv.m, ok.m, contact, v, *looseNow) {
			return
		}
		v.reply(b, reply{status: 200})
		w.over()
		w.x.Seen(fmt.Sprintf("crossing %s %d", first.m.Method, (d1-d2).Microseconds()/20))
	}
	// Nobody hangs up on this side, so nothing may tell the peer so.
	unasked := func(w *world) {
		r := w.c.R
		slowReader(w)
		v := w.server(0)
		if !w.start(genCall(r, v, callOpt{})) {
			return
		}
		inv := v.request(patience, 0, "INVITE")
		if inv == nil {
			w.fail("no-invite", "no INVITE arrives")
			return
		}
		body := func() []byte {
			if r.Bool() {
				return nil
			}
			return bodyText(loop(r).String(), r.Range(1, 65535), 0)
		}
		lines := func() (l []string) {
			for n := r.IntN(3); n > 0; n-- {
				l = append(l, fmt.Sprintf("Record-Route: <sip:p%d@%s;lr>", n, v.addr()))
			}
			return
		}
		p := newPeer(r, inv.m)
		seq, desc := r.Range(1, 1000), ""
		ask := func(method string, body []byte) {
			if !r.P(0.1) { // Now and then a number again.
				seq += r.Range(1, 9)
			}
			v.send(inv.from, p.requestBody(method, seq, body, "Contact: "+v.contact()))
		}
		for n := r.IntN(7); n > 0; n-- {
			step := r.Pick("progress", "progress", "progress", "foreign", "query", "other", "junk")
			desc += " " + step
			switch step {
			case "progress":
				rep := reply{status: []int{100, 180, 183, 180, 183, 182, 199}[r.IntN(7)], tag: "peer", lines: lines(), body: body()}
				if r.Bool() {
					rep.contact = v.contact()
				}
				desc += fmt.Sprint(rep.status, rep.body != nil)
				for m := r.Range(1, 2); m > 0; m-- {
					v.reply(inv, rep)
				}
			case "foreign":
				rep, _ := foreign(r, inv.m, reply{status: []int{180, 200, 487, 503, 302}[r.IntN(5)], tag: "peer", contact: v.contact(), body: body()})
				v.reply(inv, rep)
			case "query":
				ask("OPTIONS", nil)
			case "other":
				ask(r.Pick("INFO", "UPDATE", "NOTIFY", "PRACK"), body())
			case "junk":
				raw, _ := junk(r, inv.m, v)
				v.send(inv.from, raw)
			}
			nap(r, 5*time.Millisecond)
		}
		end := r.Pick("bye", "bye", "bye", "bye", "early-bye", "reject")
		switch end {
		case "reject":
			v.reply(inv, reply{status: []int{486, 503, 404, 600, 480}[r.IntN(5)], tag: "peer"})
		case "early-bye":
			v.reply(inv, reply{status: 180, tag: "peer"})
			ask("BYE", nil)
		default:
			k := w.answer(v, inv, upOpt{contact: v.contact(), body: body()})
			if k == nil {
				return
			}
			k.p = p
			for n := r.IntN(8); n > 0; n-- {
				step := r.Pick("again", "late", "foreign", "query", "other", "move", "move", "ack", "junk")
				desc += " " + step
				switch step {
				case "again":
					v.send(inv.from, k.ok.raw)
				case "late":
					v.reply(inv, reply{status: []int{100, 180, 183, 486, 503, 302}[r.IntN(6)], tag: "peer", contact: v.contact(), body: body()})
				case "foreign":
					rep, _ := foreign(r, inv.m, reply{status: []int{180, 200, 487, 503, 302}[r.IntN(5)], tag: "peer", contact: v.contact(), body: body()})
					v.reply(inv, rep)
				case "query":
					ask("OPTIONS", nil)
				case "other":
					ask(r.Pick("INFO", "UPDATE", "NOTIFY", "PRACK", "CANCEL"), body())
				case "move":
					ask("INVITE", body())
					if r.P(0.8) {
						v.send(inv.from, p.request("ACK", seq))
					}
				case "ack":
					v.send(inv.from, p.request("ACK", seq+r.IntN(2)))
				case "junk":
					raw, _ := junk(r, inv.m, v)
					v.send(inv.from, raw)
				}
				nap(r, 5*time.Millisecond)
			}
			if !k.barrier() || !k.end() {
				return
			}
		}
		if !w.over() || !w.flush() {
			return
		}
		w.c.Eval(1)
		for _, m := range []string{"CANCEL", "BYE"} {
			if n := w.count(func(e *entry) bool { return isReq(e, m) }); n != 0 {
				w.fail("unasked", "%d %s without a hang-up:%s, %s", n, m, desc, end)
				return
			}
		}
		w.x.Seen("unasked" + desc + end)
	}
	for _, loose := range []bool{false, true} {
		*looseNow = loose
		settings{5000, 2, loose, false}.apply()
		calls(x, fmt.Sprintf("unasked-loose=%v", loose), x.N(120, 2000), 32, unasked)
		calls(x, fmt.Sprintf("cancel-loose=%v", loose), x.N(250, 4000), 32, cancel)
		calls(x, fmt.Sprintf("bye-loose=%v", loose), x.N(350, 6000), 32, bye)
		calls(x, fmt.Sprintf("crossing-loose=%v", loose), x.N(100, 2000), 32, crossing)
	}
}

var looseNow = new(bool)

// viaText is a hop by what it means, without what the receiver may add.
func viaText(v wire.Via, top bool) string {
	s := strings.ToUpper(v.Proto) + " " + strings.ToLower(v.Host) + " " + fmt.Sprint(v.Port)
	for _, p := range v.Params {
		if top && (strings.EqualFold(p.Name, "received") || strings.EqualFold(p.Name, "rport") || strings.EqualFold(p.Name, "usi")) {
			continue
		}
		s += fmt.Sprintf(";%s=%q", strings.ToLower(p.Name), p.Value)
	}
	return s
}

func viaList(m *wire.Msg) (s []string) {
	for i, v := range m.Vias() {
		s = append(s, viaText(v, i == 0))
	}
	return
}

// judgeResponse compares a response with its request.
func judgeResponse(w *world, rsp, req *wire.Msg) bool {
	if g, n := strings.Join(viaList(rsp), "\n"), strings.Join(viaList(req), "\n"); g != n {
		w.fail("via", "the %d response to %s has the Via list\n%s\nthe request\n%s", rsp.Status, req.Method, g, n)
		return false
	}
	for _, h := range []string{"from", "to"} {
		if !sameAddrHeader(w, "the response", h, rsp, req) {
			return false
		}
	}
	if g, n := rsp.Get("call-id"), req.Get("call-id"); g != n {
		w.fail("callid", "the response has Call-ID %q, the request %q", g, n)
		return false
	}
	gn, gm := rsp.CSeq()
	rn, rm := req.CSeq()
	if gn != rn || gm != rm {
		w.fail("cseq", "the response has CSeq %q, the request %q", rsp.Get("cseq"), req.Get("cseq"))
		return false
	}
	if rsp.Version != "SIP/2.0" {
		w.fail("version", "the response has version %q", rsp.Version)
		return false
	}
	return true
}

func genHop(r *mon.Rand) string {
	h := r.Pick("192.0.2.9", "gw.example.com", "[2001:db8::9]", "a-b.c")
	s := "SIP/2.0/" + r.Pick("UDP", "UDP", "TCP", "TLS") + " " + h
	if r.P(0.7) {
		s += fmt.Sprintf(":%d", r.Range(1, 65535))
	}
	s += fmt.Sprintf(";branch=z9hG4bK%08x", r.Uint32())
	for r.P(0.3) {
		s += r.Pick(";ttl=3", ";maddr=224.0.0.1", ";ext="+token(r), ";flag", ";q=\"a, b;c\"", ";received=203.0.113.7", ";rport", ";rport=77")
	}
	return s
}

func checkC06(x *mon.Ctx) {
	run := func(w *world) {
		r := w.c.R
		slowReader(w)
		v := w.server(0)
		if !w.start(genCall(r, v, callOpt{})) {
			return
		}
		inv := v.request(patience, 0, "INVITE")
		if inv == nil {
			w.fail("no-invite", "no INVITE arrives")
			return
		}
		type want struct {
			status int
			req    *wire.Msg
		}
		var wants []want
		var kinds []string
		highest := 0
		p := newPeer(r, inv.m)
		k := &call{w: w, v: v, inv: inv, p: p, to: inv.from}
		if c := inv.m.Addr("contact"); *looseNow && r.Bool() {
			h, port := wire.URIHostPort(c.URI)
			k.to = &net.UDPAddr{IP: net.ParseIP(h), Port: port}
		}
		lines := func() (l []string) {
			if r.P(0.7) {
				var via []string
				top := genHop(r)
				switch r.IntN(3) {
				case 0:
					top = fmt.Sprintf("SIP/2.0/UDP %s;branch=z9hG4bK%08x%s", v.addr(), r.Uint32(), r.Pick("", ";rport", ";rport=1;received=1.2.3.4"))
				case 1:
					top = fmt.Sprintf("SIP/2.0/UDP %s:%d;branch=z9hG4bK%08x%s", v.ip(), r.Range(1, 65535), r.Uint32(), r.Pick("", ";rport", ";x=y;rport"))
				}
				via = append(via, top)
				for r.P(0.5) {
					via = append(via, genHop(r))
				}
				l = append(l, "Via: "+strings.Join(via, r.Pick(",", ", ")))
			}
			if r.P(0.3) {
				l = append(l, fmt.Sprintf("From: %s <%s>;tag=%s%s", r.Pick("\"A, B\"", "Plain Name", "\"q \\\" q\""), inv.m.Addr("to").URI, p.tag, r.Pick("", ";x=y", ";x=\"a;b\"")))
			}
			if r.P(0.2) {
				l = append(l, "v: "+genHop(r))
			}
			if r.P(0.2) {
				l = append(l, "Contact: "+v.contact())
			}
			if r.P(0.2) {
				l = append(l, fmt.Sprintf("Max-Forwards: %d", r.Range(1, 200)))
			}
			if r.P(0.2) {
				l = append(l, "X-Extra: "+word(r), "Subject: hello")
			}
			return
		}
		body := func() []byte {
			if r.P(0.2) {
				return bodyText("192.0.2.77", 4000, 0)
			}
			return nil
		}
		seq := func() int { // the next number, old or new
			switch r.IntN(6) {
			case 0:
				return r.IntN(highest + 1)
			case 1:
				return highest
			case 2:
				return highest + r.Range(1, 1000)
			}
			return highest + 1
		}
		ask := func(raw []byte, status int) {
			e := k.ask(raw)
			if e.m == nil {
				panic("bad request made: " + string(raw))
			}
			wants = append(wants, want{status, e.m})
		}
		early := true
		step := func() {
			kind := r.Pick("options", "options", "invite", "method", "method", "foreign", "ack", "response", "old-bye")
			if kind == "old-bye" && highest == 0 {
				kind = "options"
			}
			if early && kind == "invite" {
				kind = "options"
			}
			kinds = append(kinds, kind)
			switch kind {
			case "foreign":
				l := append(lines(), "Call-ID: "+r.Pick("x", inv.m.Get("call-id")+"x", "a"+inv.m.Get("call-id"), strings.ToUpper(inv.m.Get("call-id"))+"Q"))
				method := r.Pick("OPTIONS", "INVITE", "BYE", "CANCEL", "MESSAGE", "REGISTER", "FOO")
				if r.P(0.2) {
					l = append(l, "Max-Forwards: 0")
				}
				raw := p.requestBody(method, r.IntN(1<<31), body(), l...)
				for i, n := 0, r.Pick2(1, r.Range(1, 3)); i < n; i++ {
					ask(raw, 481)
				}
			case "old-bye": // changes nothing
				ask(p.requestBody("BYE", r.IntN(highest), body(), lines()...), 500)
			case "ack": // not answered
				l := lines()
				switch r.IntN(4) {
				case 0:
					l = append(l, "Call-ID: another")
				case 1:
					l = append(l, "Call-ID: another", "!ACK sip:x@example.com SIP/3.0")
				case 2:
					l = append(l, "Max-Forwards: "+r.Pick("0", ""))
				}
				k.ask(p.requestBody("ACK", r.Pick2(seq(), r.IntN(1<<31)), body(), l...))
			case "response": // not answered
				status := []int{100, 180, 200, 200, 302, 404, 481, 487, 503, 603}[r.IntN(10)]
				rep, what := foreign(r, inv.m, reply{status: status, tag: "peer", contact: v.contact()})
				if what == "callid" && r.Bool() {
					rep.version = "SIP/" + r.Pick("3.0", "1.0", "2.1")
				}
				v.send(k.to, rep.to(inv.m))
				kinds[len(kinds)-1] += what
			default:
				n := seq()
				method, status := "OPTIONS", 200
				switch kind {
				case "invite":
					method = "INVITE"
				case "method":
					method, status = r.Pick("INFO", "MESSAGE", "UPDATE", "REGISTER", "SUBSCRIBE", "NOTIFY", "PRACK", "REFER", "PUBLISH", "FOO", "options", "X-Y.z!%*_+`'~"), 405
				}
				raw := p.requestBody(method, n, body(), lines()...)
				for i, copies := 0, r.Pick2(1, r.Range(1, 3)); i < copies; i++ {
					st := status
					if n < highest {
						st = 500
						kinds[len(kinds)-1] += "-old"
					}
					if n > highest {
						highest = n
					}
					ask(raw, st)
				}
				if method == "INVITE" && r.P(0.7) {
					k.ask(p.request("ACK", n))
				}
			}
			nap(r, time.Millisecond)
		}
		if r.P(0.4) {
			v.reply(inv, reply{status: provisional[r.IntN(3)], tag: "peer"})
			w.flush()
			for i, n := 0, r.Range(1, 4); i < n; i++ {
				step()
			}
		}
		early = false
		if w.answer(v, inv, upOpt{}) == nil {
			return
		}
		for i, n := 0, r.Range(1, 12); i < n; i++ {
			step()
		}
		end := r.Pick("bye", "bye", "hops", "no-hops", "version", "version-ack", "version-response", "hang-up")
		version := "SIP/" + r.Pick("3.0", "1.0", "2.1", "2.10", "12.0", "0.0", "255.255")
		switch end {
		case "bye":
			highest += r.IntN(2)
			ask(p.requestBody("BYE", highest, body(), lines()...), 200)
		case "hops":
			ask(p.requestBody(r.Pick("OPTIONS", "BYE", "INVITE", "INFO"), seq(), body(), append(lines(), "Max-Forwards: 0")...), 483)
		case "no-hops":
			ask(p.requestBody(r.Pick("OPTIONS", "BYE", "INVITE", "INFO"), seq(), body(), append(lines(), "Max-Forwards:")...), 483)
		case "version":
			method := r.Pick("OPTIONS", "BYE", "INVITE", "INFO")
			ask(p.requestBody(method, seq(), body(), append(lines(), "!"+method+" sip:x@example.com "+version)...), 505)
		case "version-ack":
			k.ask(p.requestBody("ACK", seq(), body(), append(lines(), "!ACK sip:x@example.com "+version)...))
		case "version-response":
			k.ask(reply{status: []int{100, 200, 404}[r.IntN(3)], tag: "peer", contact: v.contact(), version: version}.to(inv.m))
		case "hang-up":
			e := k.ask(p.request("OPTIONS", highest+1))
			wants = append(wants, want{200, e.m})
			if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
				w.fail("no-reply", "a keep-alive query is not answered")
				return
			}
			w.hangup()
			b := v.request(patience, 0, "BYE")
			if b == nil {
				w.fail("no-bye", "no BYE after the hang-up")
				return
			}
			v.reply(b, reply{status: 200})
		}
		if !w.over() {
			return
		}
		ev := w.events()
		last := ""
		if len(ev) > 1 {
			last = ev[len(ev)-2].String()
		}
		switch end {
		case "bye", "hang-up":
			if last != "hangup" || hasErr(w) != nil {
				w.fail("ending", "after %s the last event is %s", end, last)
			}
		default:
			if !strings.HasPrefix(last, "error") {
				w.fail("ending", "after a request with %s the last event is %s", end, last)
			}
		}
		w.flush()
		var got []*wire.Msg
		for _, e := range w.snapshot() {
			if e.kind == "recv" && e.m != nil && e.m.Status > 0 {
				got = append(got, e.m)
			} else if e.kind == "recv" && e.m == nil {
				w.fail("garbage", "something that is no message was sent: %q", e.raw)
				return
			}
		}
		for i := 0; i < len(wants) && i < len(got); i++ {
			if got[i].Status != wants[i].status {
				w.fail("status", "response %d is %d %s, want %d for %s %s, after %v, then %s", i, got[i].Status, got[i].Get("cseq"), wants[i].status, wants[i].req.Method, wants[i].req.Get("cseq"), kinds, end)
				return
			}
			if !judgeResponse(w, got[i], wants[i].req) {
				return
			}
		}
		if len(got) != len(wants) {
			w.fail("count", "%d responses were sent for %d requests that need one, after %v, then %s", len(got), len(wants), kinds, end)
			return
		}
		w.x.Seen(fmt.Sprintf("%v %s", kinds, end))
		w.x.Count("responses judged", int64(len(got)))
	}
	for _, loose := range []bool{false, true} {
		*looseNow = loose
		settings{5000, 2, loose, false}.apply()
		calls(x, fmt.Sprintf("requests-loose=%v", loose), x.N(500, 10000), 32, run)
	}
	*looseNow = false
	// Every server counts its requests on its own.
	dns.start()
	settings{5000, 2, false, false}.apply()
	calls(x, "servers", x.N(40, 1000), 32, func(w *world) {
		r := w.c.R
		slowReader(w)
		dom := fmt.Sprintf("c06-%d-%d.test", w.c.ID.Index, time.Now().UnixNano()%1000000)
		w.fakes = append(w.fakes, dom)
		n := r.Range(2, 4)
		var recs []srvRec
		var srv []*server
		for i := 0; i < n; i++ {
			target := fmt.Sprintf("s%d.%s", i, dom)
			v := w.server(0)
			srv = append(srv, v)
			dns.setA(target, v.addr().IP)
			recs = append(recs, srvRec{i + 1, v.port(), target})
		}
		redirect := r.P(0.3)
		var last string
		if redirect {
			recs, last = recs[:n-1], srv[n-1].contact()
		}
		dns.setSRV(dom, recs)
		if !w.start(genCall(r, srv[0], callOpt{host: dom})) {
			return
		}
		hist := ""
		for i, v := range srv {
			inv := v.request(patience, 0, "INVITE")
			if inv == nil {
				w.fail("no-invite", "no INVITE arrives at %s", v.name)
				return
			}
			k := &call{w: w, v: v, inv: inv, p: newPeer(r, inv.m), to: inv.from}
			if i == n-1 && w.answer(v, inv, upOpt{}) == nil {
				return
			}
			highest := 0
			for q := r.IntN(3); q > 0 || i == n-1 && q >= 0; q-- {
				seq, status := r.Range(1, []int{10, 1000, 1 << 30}[r.IntN(3)]), 200
				if seq < highest {
					status = 500
				} else {
					highest = seq
				}
				e := k.ask(k.p.request("OPTIONS", seq))
				a := v.recv(patience, e.n, func(m *wire.Msg) bool { return m.Status > 0 && m.Get("cseq") == e.m.Get("cseq") })
				if a == nil {
					w.fail("no-reply", "request %d of %s is not answered", seq, v.name)
					return
				}
				if a.m.Status != status {
					w.fail("status", "request %d of %s, whose highest number is %d, is answered %d, want %d", seq, v.name, highest, a.m.Status, status)
					return
				}
				hist += fmt.Sprintf(" %d", status)
			}
			if i == n-1 {
				if highest < 1500000000 && !k.end() {
					return
				}
			} else if redirect && i == n-2 {
				v.reply(inv, reply{status: 302, tag: "x", contact: last})
			} else {
				v.reply(inv, reply{status: 503, tag: "x"})
			}
			hist += ";"
		}
		w.x.Seen(fmt.Sprintf("servers %v%s", redirect, hist))
	})
}

// genStreams writes a session description and says what is to be reported for it.
func genStreams(r *mon.Rand) (body []byte, peer string, kind string) {
	ip := fmt.Sprintf("%d.%d.%d.%d", r.Range(1, 223), r.IntN(256), r.IntN(256), r.Range(1, 254))
	fam := "IP4"
	if r.P(0.2) {
		ip, fam = fmt.Sprintf("2001:db8::%x", r.Range(1, 65535)), "IP6"
	}
	if r.P(0.15) {
		return bodyText(ip, 0, r.Range(1, 65535)), "", "video"
	}
	port := r.Range(1, 65535)
	l := []string{fmt.Sprintf("o=- %d %d IN %s %s", r.IntN(1<<30), r.IntN(1<<30), fam, r.Pick(ip, "192.0.2.250")), "s=x", "c=IN " + fam + " " + ip, "t=0 0"}
	if strings.Contains(l[0], "192.0.2.250") {
		l[0] = strings.Replace(l[0], "IP6", "IP4", 1)
	}
	a := fmt.Sprintf("m=audio %d RTP/AVP %s", port, r.Pick("0", "0 101", "8 0 101"))
	kind = "audio"
	if r.P(0.3) {
		v := fmt.Sprintf("m=video %d RTP/AVP 34", r.Range(1, 65535))
		kind = "both"
		if r.Bool() {
			l = append(l, v, a)
		} else {
			l = append(l, a, v)
		}
	} else {
		l = append(l, a)
	}
	if strings.Contains(a, "101") {
		l = append(l, "a=rtpmap:101 telephone-event/8000", "a=fmtp:101 0-16")
	}
	if r.P(0.3) {
		l = append(l, r.Pick("a=sendrecv", "a=sendonly", "a=ptime:20", "a=silenceSupp:off - - - -"))
	}
	return []byte("v=0\r\n" + strings.Join(l, "\r\n") + "\r\n"), (&net.UDPAddr{IP: net.ParseIP(ip), Port: port}).String(), kind
}

func checkC07(x *mon.Ctx) {
	reports := func(w *world) {
		r := w.c.R
		slowReader(w)
		v := w.server(0)
		if !w.start(genCall(r, v, callOpt{})) {
			return
		}
		inv := v.request(patience, 0, "INVITE")
		if inv == nil {
			w.fail("no-invite", "no INVITE arrives")
			return
		}
		var want, script []string
		var last []byte
		var at string
		media := func(count bool) []byte {
			if r.P(0.3) {
				return nil
			}
			b, peer, kind := genStreams(r)
			if last != nil && r.P(0.3) { // the same address once more
				b, peer, kind = last, at, "same"
			}
			if count {
				last, at = b, peer
			}
			if count && peer != "" {
				want = append(want, "peer "+peer)
			}
			script = append(script, kind)
			return b
		}
		stray := func() {
			b, _, _ := genStreams(r)
			rep, _ := foreign(r, inv.m, reply{status: []int{180, 183, 200, 486}[r.IntN(4)], tag: "peer", contact: v.contact(), body: b})
			v.reply(inv, rep)
			script = append(script, "stray")
		}
		for i, n := 0, r.IntN(4); i < n; i++ {
			if r.P(0.2) {
				stray()
			}
			st := []int{180, 183, 183, 181, 199}[r.IntN(5)]
			script = append(script, fmt.Sprint(st))
			v.reply(inv, reply{status: st, tag: "peer", contact: v.contact(), body: media(true)})
			nap(r, 2*time.Millisecond)
		}
		if r.P(0.15) { // rejected
			script = append(script, "486")
			v.reply(inv, reply{status: 486, tag: "peer", body: media(false)})
			w.rejectedWith(486)
		} else {
			script = append(script, "200")
			k := w.answer(v, inv, upOpt{body: media(true)})
			if k == nil {
				return
			}
			seq := r.Range(1, 1000)
			for i, n := 0, r.Range(1, 8); i < n; i++ {
				seq += r.Range(1, 3)
				step := r.Pick("invite", "invite", "invite", "again", "late", "stale", "foreign", "options", "stray", "text")
				script = append(script, step)
				var e *entry
				status := 200
				switch step {
				case "invite":
					l := []string{}
					if r.P(0.7) {
						l = append(l, "Contact: "+v.contact())
					}
					e = k.ask(k.p.requestBody("INVITE", seq, media(true), l...))
				case "text":
					e = k.ask(rewriteText(k.p.request("INVITE", seq), "m=audio 1 RTP/AVP 0\r\n"))
				case "again":
					v.send(inv.from, k.ok.raw)
				case "late":
					v.reply(inv, reply{status: []int{180, 183, 199}[r.IntN(3)], tag: "peer", contact: v.contact(), body: media(false)})
				case "stale":
					e = k.ask(k.p.request("OPTIONS", seq))
					v.response(patience, e.n, 200, e.m.Get("cseq"))
					e = k.ask(k.p.requestBody("INVITE", seq-1, media(false), "Contact: "+v.contact()))
					status = 500
				case "foreign":
					e = k.ask(k.p.requestBody("INVITE", seq, media(false), "Call-ID: of-another-call"))
					status = 481
				case "options":
					e = k.ask(k.p.requestBody(r.Pick("OPTIONS", "INFO", "UPDATE"), seq, media(false)))
					status = 0
				case "stray":
					stray()
				}
				if e != nil {
					got := v.recv(patience, e.n, func(m *wire.Msg) bool {
						return (m.Status == status || status == 0 && m.Status > 0) && m.Get("cseq") == e.m.Get("cseq")
					})
					if got == nil {
						w.fail("no-reply", "no %d response to %s", status, step)
						return
					}
					if e.m.Method == "INVITE" && status == 200 {
						if !judgeResponse(w, got.m, e.m) {
							return
						}
						k.ask(k.p.request("ACK", seq))
					}
				}
				nap(r, 2*time.Millisecond)
			}
			if !k.barrier() || !k.end() {
				return
			}
		}
		var got []string
		n := 0
		for _, e := range w.events() {
			if e.kind == "peer" {
				got = append(got, e.String())
			}
			if e.String() == "answered" {
				n++
			}
		}
		if g, n := strings.Join(got, "\n"), strings.Join(want, "\n"); g != n {
			w.fail("media", "media addresses reported:\n%s\nwant:\n%s\nscript: %v", g, n, script)
			return
		}
		if n > 1 {
			w.fail("answered-twice", "the answer is reported %d times", n)
		}
		w.x.Seen(fmt.Sprint(script))
		w.x.Count("media reports", int64(len(got)))
	}
	for _, loose := range []bool{false, true} {
		settings{5000, 2, loose, false}.apply()
		calls(x, fmt.Sprintf("reports-loose=%v", loose), x.N(400, 8000), 32, reports)
	}
	sets := []settings{{120, 0, false, false}, {120, 1, false, false}, {150, 2, false, false}, {100, 4, true, false}}
	if x.Thorough() {
		sets = append(sets, settings{400, 2, false, false}, settings{40, 8, true, false}, settings{150, 3, false, true})
	}
	for _, s := range sets {
		s.apply()
		iv := time.Duration(s.interval) * time.Millisecond
		life := iv * time.Duration(s.resends+1)
		calls(x, fmt.Sprintf("repeat-interval=%d-resends=%d", s.interval, s.resends), x.N(80, 600), 32, func(w *world) {
			r := w.c.R
			v := w.server(0)
			if !w.start(genCall(r, v, callOpt{})) {
				return
			}
			k := w.up(v, upOpt{body: bodyText("192.0.2.1", 4000, 0)})
			if k == nil {
				return
			}
			seq := r.Range(2, 1000)
			oks := func(seq int) (out []*entry) {
				for _, e := range w.snapshot() {
					if e.kind == "recv" && e.m != nil && e.m.Status == 200 && e.m.Get("cseq") == fmt.Sprintf("%d INVITE", seq) {
						out = append(out, e)
					}
				}
				return
			}
			waitOks := func(seq, n int) bool {
				return w.wait(patience+life, func([]*entry) bool { return len(oks(seq)) >= n })
			}
			re := func() *entry {
				return k.ask(k.p.requestBody("INVITE", seq, bodyText("192.0.2.9", r.Range(1, 65535), 0), "Contact: "+v.contact()))
			}
			rounds := r.IntN(3)
			slow := 0
			for i := 0; i < rounds; i++ { // acknowledged ones first
				re()
				copies := 1
				if r.Bool() {
					copies = r.Range(1, s.resends+1)
				}
				slow = max(slow, copies-1)
				if !waitOks(seq, copies) {
					w.fail("no-reply", "a re-INVITE is answered %d times, want %d", len(oks(seq)), copies)
					return
				}
				k.ask(k.p.request("ACK", seq))
				seq += r.Range(1, 3)
			}
			how := r.Pick("never", "never", "after", "after", "replaced", "busy", "bye")
			req := re()
			switch how {
			case "never", "busy":
				// things that are no acknowledgement
				for i, n := 0, r.IntN(3); i < n; i++ {
					switch r.IntN(4) {
					case 0:
						k.ask(k.p.request("ACK", seq-1))
					case 1:
						k.ask(k.p.request("ACK", seq+1))
					case 2:
						k.ask(k.p.request("ACK", seq, "Call-ID: of-another-call"))
					case 3:
						v.send(k.inv.from, k.ok.raw)
					}
				}
				if how == "busy" {
					go func() {
						for i := 0; i < 10; i++ {
							k.ask(k.p.request("OPTIONS", seq+1))
							time.Sleep(iv / 3)
						}
					}()
					time.Sleep(iv * 4)
				}
				if w.event(patience+2*life, 0, "closed") == nil {
					w.fail("unfinished", "a re-INVITE answer that is never acknowledged does not end the call")
					return
				}
				w.flush()
				if hasErr(w) == nil {
					w.fail("error", "no error after a re-INVITE answer was never acknowledged")
					return
				}
				tx := oks(seq)
				if len(tx) != s.resends+1 {
					w.fail("repeats", "the answer to a re-INVITE was sent %d times, want %d", len(tx), s.resends+1)
					return
				}
				for i, e := range tx {
					if i > 0 {
						gap := e.at - tx[i-1].at
						gaps.add(fmt.Sprintf("repetition %d of the answer", i), gap)
						if gap < iv*6/10 || gap > iv*2+time.Second {
							w.late("interval", "the answer repeated after %v at interval %v", gap, iv)
						}
					}
					if !judgeResponse(w, e.m, req.m) {
						return
					}
				}
				if end := w.event(0, 0, "error"); end != nil {
					d := end.at - tx[len(tx)-1].at
					gaps.add("giving up", d)
					if d < iv*6/10 || d > iv*2+time.Second {
						w.late("give-up", "given up %v after the last transmission, interval %v", d, iv)
					}
				}
			case "after", "replaced":
				after := r.IntN(s.resends + 1)
				if !waitOks(seq, after+1) {
					w.fail("repeats", "the answer to a re-INVITE was sent %d times, want at least %d", len(oks(seq)), after+1)
					return
				}
				old := seq
				if how == "replaced" {
					seq += r.Range(1, 3)
					re()
					if !waitOks(seq, 1) {
						if hasErr(w) != nil {
							w.late("response", "the next re-INVITE came too late")
						} else {
							w.fail("no-reply", "a re-INVITE is not answered")
						}
						return
					}
				}
				k.ask(k.p.request("ACK", seq))
				k.p.n = seq
				e := k.ask(k.p.request("OPTIONS", seq+1))
				if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
					if hasErr(w) != nil {
						w.late("response", "the acknowledgement came too late")
					} else {
						w.fail("no-reply", "a keep-alive query is not answered")
					}
					return
				}
				m := v.mark()
				time.Sleep(3*iv + 20*time.Millisecond)
				w.flush()
				for _, e := range append(oks(seq), oks(old)...) {
					if e.n > m.n {
						w.fail("repeat-after-ack", "the answer is repeated after its acknowledgement")
						return
					}
				}
				if w.event(0, 0, "closed") != nil {
					w.fail("ended", "the call ends although the re-INVITE was acknowledged")
					return
				}
				k.end()
				how += fmt.Sprint(after)
			case "bye":
				if !waitOks(seq, r.Range(1, s.resends+1)) {
					w.fail("repeats", "the answer to a re-INVITE is not repeated")
					return
				}
				e := k.ask(k.p.request("BYE", seq+1))
				if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
					if hasErr(w) != nil {
						w.late("response", "the BYE came too late")
					} else {
						w.fail("no-reply", "BYE is not answered")
					}
					return
				}
				w.over()
			}
			n := 0
			for _, e := range w.events() {
				if e.String() == "answered" {
					n++
				}
			}
			if n != 1 {
				w.fail("answered-twice", "the answer is reported %d times", n)
			}
			w.x.Seen(fmt.Sprintf("repeat %d %d %s %d %d", s.interval, s.resends, how, rounds, slow))
		})
		gaps.judge(x, fmt.Sprintf("interval=%d-resends=%d", s.interval, s.resends), iv)
	}
}

// rewriteText gives a request without body a plain text one.
func rewriteText(raw []byte, text string) []byte {
	s := strings.Replace(string(raw), "Content-Length: 0\r\n", fmt.Sprintf("Content-Type: text/plain\r\nContent-Length: %d\r\n", len(text)), 1)
	return []byte(s + text)
}

func init() {
	udp := []string{"loopback UDP delivers the datagrams of one socket in order and without loss"}
	mon.Register(&mon.Check{ID: "C05", CaseLimit: 90 * time.Second, Assumptions: append(udp, "name lookups go to a scripted name server through net.DefaultResolver"), Run: checkC05,
		Rule: "hang-ups before the answer (directly, along preset routes, after failover, after a redirect), none at all in calls full of other messages, after it (with recorded routes, moved contacts, refused and foreign requests, repeated and forked answers in between) and at the same moment; each CANCEL and BYE at any peer is compared with the call; non-trivial means a distinct history"})
	mon.Register(&mon.Check{ID: "C06", CaseLimit: 90 * time.Second, Assumptions: udp, Run: checkC06,
		Rule: "calls during which the peer sends random requests, ACKs and foreign responses with random methods, numbers, hop lists, hop limits and versions, some repeatedly; the sequence of all responses at the peer is compared with a model and each response with its request; non-trivial means a distinct history"})
	mon.Register(&mon.Check{ID: "C07", CaseLimit: 120 * time.Second, Assumptions: append(udp, "a computer so loaded that timers are late by more than half an interval three times in a row would be mistaken for a fault in the timing rules"), Run: checkC07,
		Rule: "calls with session descriptions in provisional, final, late, repeated, refused and foreign messages and re-INVITEs; the reported media addresses are compared with a model; answers to re-INVITEs that are acknowledged late, wrongly or never are counted and timed; non-trivial means a distinct history"})
}

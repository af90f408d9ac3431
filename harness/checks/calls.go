package checks

import (
	"errors"
	"fmt"
	"net"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"verif/mon"
	"verif/wire"
)

// call is an established call.
type call struct {
	w   *world
	v   *server // who it is connected to
	inv *entry
	ok  *entry // the success response as sent
	p   *peer
	to  *net.UDPAddr // where the peer sends requests
}

type upOpt struct {
	provisional []int
	contact     string
	rr          []string
	body        []byte
	tag         string
}

func (v *server) contact() string {
	return fmt.Sprintf("<sip:peer@%s>", v.addr())
}

// up answers the call at the server.
func (w *world) up(v *server, o upOpt) *call {
	inv := v.request(patience, 0, "INVITE")
	if inv == nil {
		w.fail("no-invite", "no INVITE arrives")
		return nil
	}
	return w.answer(v, inv, o)
}

func (w *world) answer(v *server, inv *entry, o upOpt) *call {
	if o.contact == "" {
		o.contact = v.contact()
	}
	if o.tag == "" {
		o.tag = "peer"
	}
	k := &call{w: w, v: v, inv: inv, p: newPeer(mon.NewRand(w.c.Seed, w.c.Check.ID+"peer", w.c.ID.Part, w.c.ID.Index), inv.m), to: inv.from}
	k.p.tag = o.tag
	for _, s := range o.provisional {
		v.reply(inv, reply{status: s, tag: o.tag, contact: o.contact})
	}
	var rr []string
	for _, r := range o.rr {
		rr = append(rr, "Record-Route: "+r)
	}
	k.ok = v.reply(inv, reply{status: 200, tag: o.tag, contact: o.contact, lines: rr, body: o.body})
	if w.event(patience, k.ok.n, "answered") == nil {
		w.fail("no-answer", "the answer is not reported")
		return nil
	}
	if v.request(patience, k.ok.n, "ACK") == nil {
		w.fail("no-ack", "the answer is not acknowledged")
		return nil
	}
	if h, p := wire.URIHostPort(inv.m.Addrs("contact")[0].URI); p > 0 && net.ParseIP(h) != nil && w.c.R.Bool() {
		k.to = &net.UDPAddr{IP: net.ParseIP(h), Port: p}
	}
	return k
}

// ask sends a request to the caller.
func (k *call) ask(raw []byte) *entry { return k.v.send(k.to, raw) }

// barrier makes sure the caller has worked off everything it was sent, and the
// peers everything that the caller sent.
func (k *call) barrier() bool {
	k.p.n++
	e := k.ask(k.p.request("OPTIONS", 1000000000+k.p.n))
	if k.v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
		k.w.fail("no-reply", "a keep-alive query is not answered")
		return false
	}
	return k.w.flush()
}

// flush waits until all peers have read what they were sent.
func (w *world) flush() bool {
	for _, v := range w.srvs {
		if v.mark() == nil {
			panic("a peer lost its mark")
		}
	}
	return true
}

// end has the peer hang up.
func (k *call) end() bool {
	e := k.ask(k.p.request("BYE", 1500000000))
	if k.v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
		k.w.fail("no-reply", "BYE is not answered")
		return false
	}
	if !k.w.over() {
		return false
	}
	ev := k.w.events()
	if len(ev) < 2 || ev[len(ev)-2].String() != "hangup" {
		k.w.fail("no-hangup", "a BYE is not reported as hang-up")
		return false
	}
	return true
}

func (w *world) states() (out []string) {
	for _, e := range w.events() {
		if e.kind == "state" {
			s := e.String()
			if len(out) == 0 || out[len(out)-1] != s {
				out = append(out, s)
			}
		}
	}
	return
}

func slowReader(w *world) {
	if w.c.R.P(0.3) {
		r := mon.NewRand(w.c.Seed, "slow", w.c.ID.Part, w.c.ID.Index)
		w.slow = func() time.Duration {
			if r.P(0.5) {
				return 0
			}
			return time.Duration(r.IntN(3000)) * time.Microsecond
		}
	}
}

func nap(r *mon.Rand, max time.Duration) {
	switch r.IntN(3) {
	case 0:
	case 1:
		time.Sleep(time.Duration(r.Int64N(int64(max) / 10)))
	case 2:
		time.Sleep(time.Duration(r.Int64N(int64(max))))
	}
}

// foreign makes a response that does not belong to the INVITE transaction.
func foreign(r *mon.Rand, inv *wire.Msg, rep reply) (reply, string) {
	v := inv.List("via")[0]
	via := wire.ParseVia(v)
	n, method := inv.CSeq()
	switch k := r.IntN(12); k {
	case 8: // no branch at all
		rep.vias = []string{strings.Replace(v, ";branch="+via.Branch(), r.Pick("", ";branch", ";x-branch="+via.Branch()), 1)}
		return rep, "nobranch"
	case 9: // the start or the end of it
		b := via.Branch()
		i := r.Range(1, len(b)-1)
		rep.vias = []string{strings.Replace(v, b, r.Pick(b[:i], b[i:], b[:len(b)-1], b[1:]), 1)}
		return rep, "part of branch"
	case 10: // no port, that's 5060
		rep.vias = []string{strings.Replace(v, via.HostPort, via.Host, 1)}
		if via.Port == 5060 {
			rep.vias = []string{}
		}
		return rep, "noport"
	case 0:
		rep.vias = []string{strings.Replace(v, via.Branch(), via.Branch()+"x", 1)}
		return rep, "branch"
	case 1:
		rep.vias = []string{strings.Replace(v, via.Branch(), "z9hG4bK-other", 1)}
		return rep, "branch"
	case 2:
		rep.cseq = fmt.Sprintf("%d %s", n+r.Pick2(1, -1), method)
		if n == 0 {
			rep.cseq = "1 " + method
		}
		return rep, "cseq"
	case 3:
		other := []string{"BYE", "OPTIONS", "CANCEL", "REGISTER", "INVITE"}
		for rep.cseq == "" || strings.HasSuffix(rep.cseq, " "+method) {
			rep.cseq = fmt.Sprintf("%d %s", n, r.Pick(other...))
		}
		return rep, "method"
	case 4:
		rep.vias = []string{strings.Replace(v, via.HostPort, fmt.Sprintf("%s:%d", via.Host, (via.Port+1)%65536), 1)}
		return rep, "port"
	case 5:
		rep.vias = []string{strings.Replace(v, via.HostPort, fmt.Sprintf("203.0.113.9:%d", via.Port), 1)}
		return rep, "host"
	case 6:
		rep.callid = "another-" + inv.Get("call-id")
		return rep, "callid"
	case 7:
		rep.vias = []string{v, "SIP/2.0/UDP 203.0.113.9;branch=z9hG4bK-above"}
		return rep, "last"
	}
	rep.vias = []string{}
	return rep, "none"
}

func hasErr(w *world) error {
	for _, e := range w.events() {
		if e.kind == "err" {
			return e.err
		}
	}
	return nil
}

// rejectedWith checks that the call ended with this response as its error.
func (w *world) rejectedWith(status int) {
	if !w.over() {
		return
	}
	var re *sip.ResponseError
	if err := hasErr(w); !errors.As(err, &re) {
		w.fail("error", "the call ends with %v instead of the %d response as error", err, status)
	} else if re.Msg == nil || re.Msg.Status != status {
		w.fail("error", "the error has response %v, want %d", re.Msg, status)
	}
	ev := w.events()
	if len(ev) < 2 || ev[len(ev)-2].kind != "err" {
		w.fail("after-error", "something is reported after the error")
	}
}

var provisional = []int{100, 180, 183}

func checkC01(x *mon.Ctx) {
	run := func(loose bool) func(w *world) {
		return func(w *world) {
			r := w.c.R
			slowReader(w)
			v := w.server(0)
			if !w.start(genCall(r, v, callOpt{})) {
				return
			}
			inv := v.request(patience, 0, "INVITE")
			if inv == nil {
				w.fail("no-invite", "no INVITE arrives")
				return
			}
			var want []string
			desc := ""
			state := -1
			see := func(s int) {
				if n := stateName[s]; len(want) == 0 || want[len(want)-1] != n {
					want = append(want, n)
				}
				state = s
			}
			send := func(status int) {
				body := []byte(nil)
				if r.P(0.3) {
					body = bodyText("192.0.2.1", 4000, 0)
				}
				tag := ""
				if status != 100 {
					tag = "peer"
				}
				v.reply(inv, reply{status: status, tag: tag, contact: v.contact(), body: body})
				desc += fmt.Sprintf(" %d", status)
				switch {
				case status == 100 && state < 1:
					see(0)
				case (status == 180 || status == 183) && state < 2:
					see(1)
				case status == 200 && state < 2:
					see(2)
				}
			}
			stray := func() {
				status := []int{100, 180, 183, 200, 200, 302, 404, 486, 487, 503, 603}[r.IntN(11)]
				rep, what := foreign(r, inv.m, reply{status: status, tag: "peer", contact: v.contact(), body: bodyText("192.0.2.66", 666, 0)})
				v.reply(inv, rep)
				desc += fmt.Sprintf(" (%d other %s)", status, what)
				w.x.Seen(fmt.Sprintf("stray %d %s in state %d", status, what, state))
			}
			for i, n := 0, r.Range(0, 7); i < n; i++ {
				if r.P(0.35) {
					stray()
				} else {
					send([]int{100, 100, 180, 183, 181, 199, 182}[r.IntN(7)])
				}
				nap(r, 3*time.Millisecond)
			}
			finish := func(k string) { desc += " " + k; w.x.Seen("script" + desc) }
			switch r.IntN(5) {
			case 0: // rejected
				status := []int{300, 380, 400, 404, 408, 480, 486, 487, 500, 504, 600, 603, 606, 699}[r.IntN(14)]
				v.reply(inv, reply{status: status, tag: "peer", contact: r.Pick("", v.contact())})
				finish(fmt.Sprintf("%d", status))
				w.rejectedWith(status)
			case 1: // cancelled
				w.hangup()
				if v.request(patience, 0, "CANCEL") == nil {
					w.fail("no-cancel", "no CANCEL arrives")
					return
				}
				can := v.request(patience, 0, "CANCEL")
				v.reply(can, reply{status: 200})
				if r.P(0.3) {
					stray()
				}
				v.reply(inv, reply{status: 487, tag: "peer"})
				finish("cancel")
				if !w.over() {
					return
				}
				if st := w.states(); len(st) > 0 && st[len(st)-1] == "hangup" {
					want = append(want, "hangup")
				}
			default:
				send(200)
				for i, n := 0, r.Range(0, 6); i < n; i++ {
					nap(r, 3*time.Millisecond)
					if r.P(0.35) {
						stray()
					} else {
						send([]int{100, 180, 183, 200, 200, 199}[r.IntN(6)])
					}
				}
				if w.event(patience, 0, "answered") == nil {
					w.fail("no-answer", "the answer is not reported")
					return
				}
				if r.Bool() {
					p := newPeer(r, inv.m)
					v.send(inv.from, p.request("BYE", 5))
					finish("bye from peer")
				} else {
					w.hangup()
					bye := v.request(patience, 0, "BYE")
					if bye == nil {
						w.fail("no-bye", "no BYE arrives")
						return
					}
					// not the confirmation yet
					if r.Bool() {
						rep, what := foreign(r, bye.m, reply{status: 200, contact: v.contact()})
						desc += " (200 other " + what + ")"
						v.reply(bye, rep)
						nap(r, 3*time.Millisecond)
						v.reply(inv, reply{status: 200, tag: "peer", contact: v.contact()})
						time.Sleep(time.Millisecond)
						w.flush()
						for _, e := range w.events() {
							if e.String() == "hangup" {
								w.fail("early-hangup", "hung up is reported before the peer confirmed")
								return
							}
						}
					}
					v.reply(bye, reply{status: 200})
					finish("hang-up")
				}
				if !w.over() {
					return
				}
				want = append(want, "hangup")
				if err := hasErr(w); err != nil {
					w.fail("error", "the call ends with error %v", err)
				}
				ev := w.events()
				if len(ev) < 2 || ev[len(ev)-2].String() != "hangup" {
					w.fail("after-hangup", "something is reported after the hang-up")
				}
			}
			if got := w.states(); strings.Join(got, " ") != strings.Join(want, " ") {
				w.fail("states", "reported states %v, want %v; script:%s", got, want, desc)
			}
			for _, e := range w.events() {
				if e.kind == "peer" && e.peer.Port == 666 {
					w.fail("stray-media", "media of a response that doesn't belong to the transaction is reported")
				}
			}
			// one answer at most, and each report after its cause
			n := 0
			sent := map[int]bool{}
			for _, e := range w.snapshot() {
				if e.kind == "send" && e.m != nil {
					sent[e.m.Status] = true
				}
				if e.kind == "event" && e.ev.kind == "state" {
					cause := true
					switch e.ev.state {
					case dialog.Proceeding:
						cause = sent[100]
					case dialog.Ringing:
						cause = sent[180] || sent[183]
					case dialog.Answered:
						cause = sent[200]
						n++
					}
					if !cause {
						w.fail("premature", "%v is reported before the peer said so", e.ev)
					}
				}
			}
			if n > 1 {
				w.fail("answered-twice", "the answer is reported %d times", n)
			}
		}
	}
	for _, loose := range []bool{false, true} {
		settings{5000, 2, loose, false}.apply()
		calls(x, fmt.Sprintf("progress-loose=%v", loose), x.N(500, 10000), 32, run(loose))
	}
}

// judgeAck checks one ACK against the response it acknowledges.
func judgeAck(w *world, ack *wire.Msg, rsp *wire.Msg) bool {
	bad := func(what, got, want string) bool {
		w.fail("ack-"+what, "the ACK has %s %q, want %q", what, got, want)
		return false
	}
	n, _ := rsp.CSeq()
	if g, m := ack.CSeq(); g != n || m != "ACK" {
		return bad("cseq", ack.Get("cseq"), fmt.Sprintf("%d ACK", n))
	}
	if ack.Get("call-id") != rsp.Get("call-id") {
		return bad("callid", ack.Get("call-id"), rsp.Get("call-id"))
	}
	for _, h := range []string{"from", "to"} {
		g, want := ack.Addr(h), rsp.Addr(h)
		if !sameParty(g, want) || g.Display != want.Display {
			return bad(h, ack.Get(h), rsp.Get(h))
		}
	}
	if len(ack.Vias()) != 1 {
		return bad("via", ack.Get("via"), "one hop")
	}
	if rsp.Status < 300 {
		if want := rsp.Addrs("contact")[0].URI; ack.URI != want {
			return bad("target", ack.URI, want)
		}
		var want, got []string
		for _, a := range rsp.Addrs("record-route") {
			want = append([]string{a.URI}, want...)
		}
		for _, a := range ack.Addrs("route") {
			got = append(got, a.URI)
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return bad("route", strings.Join(got, " "), strings.Join(want, " "))
		}
	}
	return true
}

func isAck(e *entry) bool { return isReq(e, "ACK") }

func genRR(r *mon.Rand, n int) (rr []string) {
	for i := 0; i < n; i++ {
		rr = append(rr, fmt.Sprintf("<sip:%sp%d.example:%d;lr>", r.Pick("", "u@"), i, r.Range(1000, 6000)))
	}
	if n > 1 && r.Bool() {
		rr = []string{strings.Join(rr, r.Pick(",", ", "))}
	}
	return
}

func checkC02(x *mon.Ctx) {
	run := func(w *world) {
		r := w.c.R
		slowReader(w)
		v := w.server(0)
		other := w.server(0) // named in contacts and routes, but not the one to talk to
		if !w.start(genCall(r, v, callOpt{})) {
			return
		}
		inv := v.request(patience, 0, "INVITE")
		if inv == nil {
			w.fail("no-invite", "no INVITE arrives")
			return
		}
		contact := v.contact()
		switch r.IntN(4) {
		case 0:
			contact = fmt.Sprintf("<sip:%s>", other.addr())
		case 1:
			contact = fmt.Sprintf("\"Some, One\" <sip:a%%20b@%s;transport=udp>;expires=60", other.addr())
		case 2:
			contact = fmt.Sprintf("<sip:one@%s>, <sip:two@%s>", other.addr(), v.addr())
		}
		tag := "t" + token(r)
		rr := genRR(r, r.IntN(4))
		var rrl []string
		for _, e := range rr {
			rrl = append(rrl, "Record-Route: "+e)
		}
		for i, n := 0, r.IntN(4); i < n; i++ {
			v.reply(inv, reply{status: provisional[r.IntN(3)], tag: tag, contact: contact, lines: rrl})
			nap(r, 2*time.Millisecond)
		}
		strays := 0
		stray := func() {
			if r.P(0.3) {
				rep, _ := foreign(r, inv.m, reply{status: []int{200, 486, 404}[r.IntN(3)], tag: tag, contact: contact})
				v.reply(inv, rep)
				strays++
			}
		}
		stray()
		if r.P(0.5) {
			// success
			copies := r.Range(1, 5)
			rep := reply{status: 200, tag: tag, contact: contact, lines: rrl}
			if r.Bool() {
				rep.body = bodyText("192.0.2.1", 4000, 0)
			}
			var first *entry
			for i := 0; i < copies; i++ {
				e := v.reply(inv, rep)
				if first == nil {
					first = e
				}
				stray()
				if r.P(0.3) {
					v.reply(inv, reply{status: provisional[r.IntN(3)], tag: tag, contact: contact})
				}
				nap(r, 3*time.Millisecond)
			}
			k := &call{w: w, v: v, inv: inv, p: newPeer(r, inv.m), to: inv.from}
			if !k.barrier() {
				return
			}
			got := w.count(isAck)
			if got != copies {
				w.fail("ack-count", "%d success responses were acknowledged %d times", copies, got)
				return
			}
			for _, e := range w.snapshot() {
				if isAck(e) {
					if e.srv != v || e.from.String() != inv.from.String() {
						w.fail("ack-path", "the ACK comes from %v to %s", e.from, e.srv.name)
						return
					}
					if !judgeAck(w, e.m, first.m) {
						return
					}
				}
			}
			w.x.Seen(fmt.Sprintf("success x%d rr=%d strays=%d contact=%q", copies, len(first.m.Addrs("record-route")), strays, contact[:6]))
			k.end()
			w.flush()
			if got := w.count(isAck); got != copies {
				w.fail("ack-count", "after %d success responses there are %d ACKs", copies, got)
			}
			return
		}
		if r.P(0.25) {
			// answers that make the call go on somewhere else, or nowhere
			status := []int{301, 302, 503, 503}[r.IntN(4)]
			rep := reply{status: status, tag: tag, lines: rrl, contact: fmt.Sprintf("<sip:%s>", other.addr())}
			e := v.reply(inv, rep)
			acks := 1
			if status != 503 {
				again := other.request(patience, 0, "INVITE")
				if again == nil {
					w.fail("no-invite", "a %d does not lead to another INVITE", status)
					return
				}
				if other.reply(again, reply{status: 486, tag: tag}); other.request(patience, 0, "ACK") == nil {
					w.fail("ack-count", "the rejection after a %d is not acknowledged", status)
					return
				}
				acks = 2
			}
			if !w.over() {
				return
			}
			w.flush()
			if got := w.count(isAck); got != acks {
				w.fail("ack-count", "the %d response and the rejection after it were acknowledged %d times", status, got)
				return
			}
			for _, a := range w.snapshot() {
				if isAck(a) && a.srv == v {
					if a.from.String() != inv.from.String() {
						w.fail("ack-path", "the ACK comes from %v", a.from)
						return
					}
					judgeAck(w, a.m, e.m)
					w.x.Seen(fmt.Sprintf("going on after %d", status))
					return
				}
			}
			w.fail("ack-path", "the %d was acknowledged elsewhere", status)
			return
		}
		// failure
		status := []int{300, 305, 380, 400, 401, 403, 404, 407, 408, 480, 481, 482, 486, 487, 488, 500, 501, 502, 504, 513, 600, 603, 604, 606}[r.IntN(24)]
		if r.P(0.2) {
			status = r.Range(303, 699)
			if status == 503 {
				status = 504
			}
		}
		rep := reply{status: status, tag: tag, contact: r.Pick("", contact), lines: rrl}
		if r.P(0.2) {
			rep.lines = append(rep.lines, "Retry-After: 5", "Reason: Q.850;cause=17")
		}
		if r.P(0.2) {
			rep.body = bodyText("192.0.2.1", 4000, 0)
		}
		e := v.reply(inv, rep)
		w.rejectedWith(status)
		w.flush()
		if got := w.count(isAck); got != 1 {
			w.fail("ack-count", "the %d response was acknowledged %d times", status, got)
			return
		}
		for _, a := range w.snapshot() {
			if isAck(a) {
				if a.srv != v || a.from.String() != inv.from.String() {
					w.fail("ack-path", "the ACK comes from %v to %s", a.from, a.srv.name)
					return
				}
				judgeAck(w, a.m, e.m)
			}
		}
		w.x.Seen(fmt.Sprintf("failure %d contact=%v rr=%d strays=%d", status, rep.contact != "", len(rr), strays))
	}
	for _, loose := range []bool{false, true} {
		settings{5000, 2, loose, false}.apply()
		calls(x, fmt.Sprintf("finals-loose=%v", loose), x.N(500, 10000), 32, run)
	}
	// repeated success responses much later, while the call goes on
	settings{5000, 2, false, false}.apply()
	calls(x, "late-copies", x.N(150, 3000), 32, func(w *world) {
		r := w.c.R
		v := w.server(0)
		if !w.start(genCall(r, v, callOpt{})) {
			return
		}
		k := w.up(v, upOpt{provisional: provisional[:r.IntN(4)], body: bodyText("192.0.2.1", 4000, 0)})
		if k == nil {
			return
		}
		n := 1
		for i := 0; i < r.Range(1, 6); i++ {
			switch r.IntN(3) {
			case 0:
				k.ask(k.p.request("INFO", 10+i))
			case 1:
				e := k.ask(k.p.requestBody("INVITE", 10+i, bodyText("192.0.2.9", 5000, 0), "Contact: "+v.contact()))
				if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
					w.fail("no-reply", "a re-INVITE is not answered")
					return
				}
				k.ask(k.p.request("ACK", 10+i))
			}
			v.send(k.inv.from, k.ok.raw)
			n++
			nap(r, 3*time.Millisecond)
		}
		if !k.barrier() {
			return
		}
		if got := w.count(isAck); got != n {
			w.fail("ack-count", "%d success responses were acknowledged %d times", n, got)
			return
		}
		for _, e := range w.snapshot() {
			if isAck(e) && !judgeAck(w, e.m, k.ok.m) {
				return
			}
		}
		w.x.Seen(fmt.Sprintf("late copies %d %d", n, w.c.ID.Index%50))
		k.end()
	})
}

// sameTransaction compares a repeated request with the first one.
func sameTransaction(w *world, what string, a, b *wire.Msg) bool {
	for _, h := range []string{"via", "from", "to", "call-id", "cseq", "contact", "route", "content-type", "user-agent", "subject"} {
		if strings.Join(a.All(h), "\n") != strings.Join(b.All(h), "\n") {
			w.fail("repeat-"+h, "the repeated %s has %s %q, the first %q", what, h, b.All(h), a.All(h))
			return false
		}
	}
	if a.Method != b.Method || a.URI != b.URI || string(a.Body) != string(b.Body) {
		w.fail("repeat-body", "the repeated %s differs from the first:\n%s\n%s", what, a.Raw, b.Raw)
		return false
	}
	return true
}

// repeats judges the transmissions of one request.
func repeats(w *world, what string, tx []*entry, s settings, want int) bool {
	if len(tx) != want {
		w.fail("repeats", "%s was sent %d times, want %d", what, len(tx), want)
		return false
	}
	for i := 1; i < len(tx); i++ {
		if !sameTransaction(w, what, tx[0].m, tx[i].m) {
			return false
		}
		if tx[i].from.String() != tx[0].from.String() {
			w.fail("repeat-source", "%s repeated from %v, first sent from %v", what, tx[i].from, tx[0].from)
			return false
		}
		gap := tx[i].at - tx[i-1].at
		iv := time.Duration(s.interval) * time.Millisecond
		gaps.add(fmt.Sprintf("repetition %d of %s", i, what), gap)
		if gap < iv*6/10 || gap > iv*2+time.Second {
			w.late("interval", "%s repeated after %v at interval %v", what, gap, iv)
		}
	}
	return true
}

// gapStats collects the times between transmissions under one setting.  Load
// makes some of them longer, but not most of them.
type gapStats struct {
	mu sync.Mutex
	m  map[string][]time.Duration
}

var gaps gapStats

func (g *gapStats) add(kind string, d time.Duration) {
	g.mu.Lock()
	if g.m == nil {
		g.m = map[string][]time.Duration{}
	}
	g.m[kind] = append(g.m[kind], d)
	g.mu.Unlock()
}

// judge compares the quartiles of what was collected with the interval.
func (g *gapStats) judge(x *mon.Ctx, part string, iv time.Duration) {
	g.mu.Lock()
	m := g.m
	g.m = nil
	g.mu.Unlock()
	x.Run("intervals-"+part, 1, 1, func(c *mon.C) {
		for kind, d := range m {
			if len(d) < 12 {
				continue
			}
			slices.Sort(d)
			lo, hi := d[len(d)/4], d[len(d)*3/4]
			if hi < iv*8/10 || lo > iv*14/10+10*time.Millisecond {
				c.FailAll("interval", "%s: of %d times between transmissions at interval %v, the quartiles are %v and %v", kind, len(d), iv, lo, hi)
			}
			c.Sample("intervals", "%s: %s: interval %v, quartiles %v %v of %d", part, kind, iv, lo, hi, len(d))
			c.Count("intervals measured", int64(len(d)))
		}
	})
}

func transmissions(w *world, method string) (tx []*entry) {
	for _, e := range w.snapshot() {
		if isReq(e, method) {
			tx = append(tx, e)
		}
	}
	return
}

func checkC03(x *mon.Ctx) {
	sets := []settings{{120, 0, false, false}, {120, 1, false, false}, {150, 2, false, false}, {100, 4, true, false}, {200, 3, false, true}}
	if x.Thorough() {
		sets = append(sets, settings{400, 2, false, false}, settings{60, 10, true, true}, settings{250, 1, true, false})
	}
	for _, s := range sets {
		s.apply()
		iv := time.Duration(s.interval) * time.Millisecond
		life := iv * time.Duration(s.resends+1)
		name := fmt.Sprintf("interval=%d-resends=%d", s.interval, s.resends)
		same := func(w *world, what string, tx []*entry, want int) bool {
			if s.stamps {
				// each transmission carries its own time stamp
				for _, e := range tx {
					e.m = unstamped(e.m)
				}
			}
			return repeats(w, what, tx, s, want)
		}
		calls(x, "silent-"+name, x.N(60, 400), 32, func(w *world) {
			r := w.c.R
			v := w.server(0)
			noise := strayNoise(w, v, "INVITE")
			if !w.start(genCall(r, v, callOpt{})) {
				return
			}
			if w.event(patience+3*life, 0, "closed") == nil {
				w.fail("unfinished", "the attempt is not given up")
				return
			}
			w.flush()
			tx := transmissions(w, "INVITE")
			if !same(w, "INVITE", tx, s.resends+1) {
				return
			}
			if end := w.event(0, 0, "error"); end != nil {
				d := end.at - tx[len(tx)-1].at
				gaps.add("giving up", d)
				if d < iv*6/10 || d > iv*2+time.Second {
					w.late("give-up", "given up %v after the last transmission, interval %v", d, iv)
				}
			}
			if err := hasErr(w); err == nil || !strings.Contains(err.Error(), v.ip()) {
				w.fail("error", "giving up reports %v, which does not name %s", err, v.ip())
			}
			if len(w.states()) > 0 {
				w.fail("states", "states %v reported for a silent peer", w.states())
			}
			w.x.Seen("silent " + name + fmt.Sprint(tx[0].m.Body != nil) + noise())
		})
		// a response stops it
		calls(x, "response-"+name, x.N(60, 400), 32, func(w *world) {
			r := w.c.R
			v := w.server(0)
			if !w.start(genCall(r, v, callOpt{})) {
				return
			}
			after := r.IntN(s.resends + 1)
			var inv *entry
			if !w.wait(patience+life, func(log []*entry) bool {
				n := 0
				for _, e := range log {
					if isReq(e, "INVITE") {
						if inv == nil {
							inv = e
						}
						if n++; n > after {
							return true
						}
					}
				}
				return false
			}) {
				w.fail("repeats", "only %d transmissions, want at least %d", len(transmissions(w, "INVITE")), after+1)
				return
			}
			status := provisional[r.IntN(3)]
			v.reply(inv, reply{status: status, tag: "peer", contact: v.contact()})
			ev := w.event(patience, 0, map[int]string{100: "proceeding", 180: "ringing", 183: "ringing"}[status])
			if ev == nil {
				if hasErr(w) != nil {
					w.late("response", "the response came too late")
				} else {
					w.fail("no-progress", "the %d response is not reported", status)
				}
				return
			}
			m := v.mark()
			time.Sleep(3*iv + 20*time.Millisecond)
			w.flush()
			for _, e := range transmissions(w, "INVITE") {
				if e.n > m.n {
					w.fail("repeat-after-response", "INVITE is repeated after the %d response", status)
					return
				}
			}
			for i, tx := 1, transmissions(w, "INVITE"); i < len(tx) && !s.stamps; i++ {
				sameTransaction(w, "INVITE", tx[0].m, tx[i].m)
			}
			v.reply(inv, reply{status: 486, tag: "peer"})
			w.rejectedWith(486)
			w.x.Seen(fmt.Sprintf("response %d after %d %s", status, after, name))
		})
		// the same for BYE
		calls(x, "bye-"+name, x.N(60, 400), 32, func(w *world) {
			r := w.c.R
			v := w.server(0)
			target := v
			o := upOpt{provisional: provisional[:r.IntN(3)]}
			if r.Bool() {
				target = w.server(0)
				o.contact = target.contact()
			}
			if !w.start(genCall(r, v, callOpt{})) {
				return
			}
			inv := v.request(patience, 0, "INVITE")
			if inv == nil {
				w.fail("no-invite", "no INVITE arrives")
				return
			}
			before := r.IntN(s.resends + 1) // repetitions of the INVITE
			if !w.wait(patience+life, func([]*entry) bool { return len(transmissions(w, "INVITE")) > before }) {
				w.fail("repeats", "only %d transmissions of INVITE, want at least %d", len(transmissions(w, "INVITE")), before+1)
				return
			}
			k := w.answer(v, inv, o)
			if k == nil {
				return
			}
			noise := strayNoise(w, target, "BYE")
			w.hangup()
			if r.P(0.4) { // answered at some time
				after := r.IntN(s.resends + 1)
				var bye *entry
				if !w.wait(patience+life, func(log []*entry) bool {
					n := 0
					for _, e := range log {
						if isReq(e, "BYE") {
							if bye == nil {
								bye = e
							}
							if n++; n > after {
								return true
							}
						}
					}
					return false
				}) {
					w.fail("repeats", "only %d transmissions of BYE, want at least %d", len(transmissions(w, "BYE")), after+1)
					return
				}
				target.reply(bye, reply{status: 200})
				w.over()
				if hasErr(w) != nil && w.event(0, 0, "hangup") == nil {
					w.late("response", "the response came too late")
				}
				time.Sleep(2 * iv)
				w.flush()
				if n := len(transmissions(w, "BYE")); n > after+2 {
					w.fail("repeat-after-response", "BYE was sent %d times, the response came after %d", n, after+1)
				} else if n == after+2 {
					w.late("repeat-after-response", "BYE was sent %d times, the response came after %d", n, after+1)
				}
				w.x.Seen(fmt.Sprintf("bye after %d %s", after, name))
				return
			}
			if w.event(patience+3*life, 0, "closed") == nil {
				w.fail("unfinished", "the BYE is not given up")
				return
			}
			w.flush()
			if !same(w, "BYE", transmissions(w, "BYE"), s.resends+1) {
				return
			}
			host := target.ip()
			if err := hasErr(w); err == nil || !strings.Contains(err.Error(), host) {
				w.fail("error", "giving up reports %v, which does not name %s", err, host)
			}
			w.x.Seen(fmt.Sprintf("silent bye %s, INVITE repeated %d times%s", name, before, noise()))
		})
		gaps.judge(x, name, iv)
	}
}

// strayNoise makes a server that stays silent say things that are no response
// to the request, at some of its transmissions.
func strayNoise(w *world, v *server, method string) func() string {
	r := mon.NewRand(w.c.Seed, "noise", w.c.ID.Part, w.c.ID.Index)
	if r.P(0.4) {
		return func() string { return "" }
	}
	var mu sync.Mutex
	seen := ""
	v.handle(func(e *entry) {
		if e.m.Method != method {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		for n := r.IntN(3); n > 0; n-- {
			if r.P(0.15) {
				id := r.Pick("", "another-") + e.m.Get("call-id")
				v.send(e.from, newPeer(r, e.m).request("OPTIONS", 1000, "Call-ID: "+id))
				seen += " OPTIONS"
				continue
			}
			status := []int{100, 180, 183, 200, 200, 302, 404, 481, 486, 503, 603}[r.IntN(11)]
			rep, what := foreign(r, e.m, reply{status: status, tag: "peer", contact: v.contact()})
			v.reply(e, rep)
			seen += " " + what
		}
	})
	return func() string {
		mu.Lock()
		defer mu.Unlock()
		return seen
	}
}

// unstamped drops the time stamps from the Via headers.
func unstamped(m *wire.Msg) *wire.Msg {
	c := *m
	c.Hdrs = nil
	for _, h := range m.Hdrs {
		if h.Name == "via" {
			var keep []string
			for _, p := range wire.Split(h.Value, ';') {
				if !strings.HasPrefix(p, "usi=") {
					keep = append(keep, p)
				}
			}
			h.Value = strings.Join(keep, ";")
		}
		c.Hdrs = append(c.Hdrs, h)
	}
	return &c
}

// closedPort finds an address where nobody listens.
func closedPort(r *mon.Rand) *net.UDPAddr {
	s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: loop(r)})
	if err != nil {
		panic(err)
	}
	defer s.Close()
	return s.LocalAddr().(*net.UDPAddr)
}

// viaIsReal checks that the addresses a request claims are those it came from.
func viaIsReal(w *world, e *entry, loose bool) bool {
	via := e.m.Vias()
	if len(via) != 1 {
		w.fail("via", "the request has %d Via hops", len(via))
		return false
	}
	if via[0].Host != e.from.IP.String() || via[0].Port != e.from.Port {
		w.fail("via", "the request from %v claims to come from %s", e.from, via[0].HostPort)
		return false
	}
	h, p := wire.URIHostPort(e.m.Addr("contact").URI)
	if h != e.from.IP.String() || !loose && p != e.from.Port || p <= 0 {
		w.fail("contact", "the request from %v has contact %s", e.from, e.m.Get("contact"))
		return false
	}
	return true
}

func checkC04(x *mon.Ctx) {
	dns.start()
	kinds := []string{"silent", "refused", "nowhere", "503", "100+503", "180+503", "503-late", "gone"}
	run := func(s settings) func(w *world) {
		return func(w *world) {
			r := w.c.R
			slowReader(w)
			dom := fmt.Sprintf("d%d-%d.%s.test", w.c.ID.Index, time.Now().UnixNano()%1000000, strings.ToLower(strings.ReplaceAll(w.c.ID.Part, "=", "-")))
			w.fakes = append(w.fakes, dom)
			n := r.Range(1, 5)
			if r.P(0.1) {
				n = r.Range(6, 11)
			}
			accept := -1
			if r.P(0.7) {
				accept = r.IntN(n)
			}
			var recs []srvRec
			srv := make([]*server, n)
			how := make([]string, n)
			deaf := make([]int, n)
			prio := 0
			for i := range how {
				how[i] = kinds[r.IntN(len(kinds))]
				if i == accept {
					how[i] = "accept"
				}
				prio += r.Range(1, 500)
				target := fmt.Sprintf("s%d.%s", i, dom)
				rec := srvRec{prio: prio, target: target}
				switch how[i] {
				case "nowhere":
					rec.port = 5060
				case "refused":
					a := closedPort(r)
					rec.port = a.Port
					dns.setA(target, a.IP)
				default:
					if i > 0 && srv[i-1] != nil && r.P(0.3) {
						srv[i] = w.beside(srv[i-1])
					} else {
						srv[i] = w.server(0)
					}
					rec.port = srv[i].port()
					dns.setA(target, srv[i].addr().IP)
				}
				recs = append(recs, rec)
			}
			r.Shuffle(len(recs), func(i, j int) { recs[i], recs[j] = recs[j], recs[i] })
			dns.setSRV(dom, recs)
			w.note("servers: %v", how)
			w.c.Note(fmt.Sprint(how))
			for i := range srv {
				v, h := srv[i], how[i]
				if v == nil {
					continue
				}
				late := time.Duration(r.IntN(s.interval)) * time.Millisecond / 2
				seen := map[string]bool{}
				// Some answer a repetition only, as if the first ones got lost.
				lost := 0
				if h != "silent" && h != "gone" && r.P(0.3) {
					lost = r.IntN(s.resends + 1)
				}
				deaf[i] = lost
				v.handle(func(e *entry) {
					if e.m.Method != "INVITE" || seen[e.m.Vias()[0].Branch()] {
						return
					}
					if lost > 0 {
						lost--
						return
					}
					if h == "gone" {
						v.leave()
						return
					}
					seen[e.m.Vias()[0].Branch()] = true
					for _, p := range strings.Split(h, "+") {
						switch p {
						case "503-late":
							time.Sleep(late)
							v.reply(e, reply{status: 503, tag: "x"})
						case "100", "180", "503":
							st, _ := strconv.Atoi(p)
							v.reply(e, reply{status: st, tag: "x"})
						case "accept":
							v.reply(e, reply{status: 100})
							v.reply(e, reply{status: 180, tag: "x"})
							v.reply(e, reply{status: 200, tag: "peer", contact: v.contact()})
						}
					}
				})
			}
			inv := genCall(r, w.anyServer(), callOpt{host: dom})
			if !w.start(inv) {
				return
			}
			if accept >= 0 {
				v := srv[accept]
				if w.event(patience+time.Duration(n*(s.resends+2)*s.interval)*time.Millisecond, 0, "answered") == nil {
					w.fail("no-answer", "the call does not reach the server that would accept it: %v", how)
					return
				}
				if v.request(patience, 0, "ACK") == nil {
					w.fail("no-ack", "the answer is not acknowledged")
					return
				}
				time.Sleep(time.Duration(s.interval*2) * time.Millisecond)
				k := &call{w: w, v: v, inv: v.request(0, 0, "INVITE"), p: newPeer(r, v.request(0, 0, "INVITE").m)}
				k.to = k.inv.from
				if !k.end() {
					return
				}
			} else {
				if w.event(patience+time.Duration(n*(s.resends+2)*s.interval)*time.Millisecond, 0, "closed") == nil {
					w.fail("unfinished", "the call does not end after all servers failed: %v", how)
					return
				}
				if hasErr(w) == nil {
					w.fail("error", "no error although all servers failed: %v", how)
					return
				}
			}
			w.flush()
			var order []int
			branch := map[string]int{}
			var first *entry
			perServer := make([]int, n)
			for _, e := range w.snapshot() {
				if !isReq(e, "INVITE") {
					continue
				}
				i := -1
				for j := range srv {
					if srv[j] == e.srv {
						i = j
					}
				}
				if len(order) == 0 || order[len(order)-1] != i {
					order = append(order, i)
				}
				perServer[i]++
				b := e.m.Vias()[0].Branch()
				if j, ok := branch[b]; ok && j != i {
					w.fail("branch", "the attempts at P%d and P%d use the same branch", j, i)
					return
				} else if !ok && perServer[i] > 1 {
					w.fail("branch", "P%d was sent two transactions", i)
					return
				}
				branch[b] = i
				if !viaIsReal(w, e, s.loose) {
					return
				}
				if first == nil {
					first = e
				} else {
					for _, h := range []string{"call-id", "from", "to"} {
						if e.m.Get(h) != first.m.Get(h) {
							w.fail("identity", "the attempt at P%d has %s %q, the first had %q", i, h, e.m.Get(h), first.m.Get(h))
							return
						}
					}
					if string(e.m.Body) != string(first.m.Body) || e.m.URI != first.m.URI {
						w.fail("identity", "the attempt at P%d has another target or body than the first", i)
						return
					}
				}
			}
			var want []int
			for i := range how {
				if srv[i] != nil && (accept < 0 || i <= accept) {
					want = append(want, i)
				}
			}
			if fmt.Sprint(order) != fmt.Sprint(want) {
				w.fail("order", "servers %v contacted in order %v, want %v", how, order, want)
				return
			}
			for _, i := range want {
				switch {
				case how[i] == "silent" && perServer[i] != 1+s.resends:
					w.fail("repeats", "silent P%d was sent %d INVITEs, want %d", i, perServer[i], 1+s.resends)
				case how[i] != "silent" && perServer[i] > 1+deaf[i]:
					w.late("repeats", "P%d was sent %d INVITEs", i, perServer[i])
				}
				acks := w.count(func(e *entry) bool { return isAck(e) && e.srv == srv[i] })
				if wantAck := map[bool]int{true: 0, false: 1}[how[i] == "silent" || how[i] == "gone"]; acks != wantAck {
					w.fail("acks", "P%d, which was %s, got %d ACKs", i, how[i], acks)
				}
			}
			w.x.Seen(strings.Join(how, " "))
		}
	}
	for _, s := range []settings{{250, 1, false, false}, {200, 0, true, false}, {250, 2, true, true}} {
		s.apply()
		calls(x, fmt.Sprintf("failover-interval=%d-resends=%d-loose=%v", s.interval, s.resends, s.loose), x.N(130, 2000), 40, run(s))
	}
	// names without SRV records lead to their address and the default port
	s := settings{300, 1, false, false}.apply()
	_ = s
	calls(x, "address", x.N(60, 400), 20, func(w *world) {
		r := w.c.R
		dom := fmt.Sprintf("a%d-%d.test", w.c.ID.Index, time.Now().UnixNano()%1000000)
		w.fakes = append(w.fakes, dom)
		port := []int{0, 5060}[r.IntN(2)]
		var v *server
		inv := genCall(r, &server{s: func() *net.UDPConn { v = w.server(5060); return v.s }()}, callOpt{host: dom})
		if port == 5060 {
			inv.Request.Port = 5060
			if inv.To != nil {
				inv.To.Uri.Port = 5060
			}
		}
		kind := r.Pick("name", "ip", "srv-ignored")
		switch kind {
		case "name":
			dns.setA(dom, v.addr().IP)
		case "ip":
			inv.Request.Host = v.ip()
		case "srv-ignored": // a port was given, so no SRV lookup
			inv.Request.Port = 5060
			dns.setA(dom, v.addr().IP)
			dns.setSRV(dom, []srvRec{{1, closedPort(r).Port, "nowhere." + dom}})
		}
		if !w.start(inv) {
			return
		}
		k := w.up(v, upOpt{})
		if k == nil {
			return
		}
		viaIsReal(w, k.inv, false)
		k.end()
		w.x.Seen(fmt.Sprintf("address %s %d", kind, port))
	})
	calls(x, "unresolvable", x.N(20, 100), 20, func(w *world) {
		inv := genCall(w.c.R, w.server(0), callOpt{host: fmt.Sprintf("no%d.nowhere.test", w.c.ID.Index)})
		if w.c.R.Bool() {
			inv.Request.Port = 5060
		}
		if !w.start(inv) || !w.over() {
			return
		}
		if hasErr(w) == nil {
			w.fail("error", "no error for a host that does not exist")
		}
		w.x.Seen("unresolvable")
	})
}

func (w *world) anyServer() *server {
	for _, v := range w.srvs {
		return v
	}
	return w.server(0)
}

func init() {
	udp := []string{"loopback UDP delivers the datagrams of one socket in order and without loss", "a computer so loaded that timers are late by more than half an interval three times in a row would be mistaken for a fault in the timing rules"}
	mon.Register(&mon.Check{ID: "C01", CaseLimit: 90 * time.Second, Assumptions: udp, Run: checkC01,
		Rule: "calls to a scripted peer that sends provisional, final, repeated, late and foreign responses in random order with random delays, read by quick and slow applications; the reported states are compared with a model of the responses sent; non-trivial means a distinct script or a foreign response of a distinct kind in a distinct state"})
	mon.Register(&mon.Check{ID: "C02", CaseLimit: 90 * time.Second, Assumptions: udp, Run: checkC02,
		Rule: "calls answered by one to five success responses or rejected with every class of failure, with foreign responses in between; all ACKs at all peers are counted and each is compared with its response; non-trivial means a distinct kind of ending"})
	mon.Register(&mon.Check{ID: "C03", CaseLimit: 120 * time.Second, Assumptions: udp, Run: checkC03,
		Rule: "calls whose INVITE or BYE gets no response, or one after some repetitions, under several settings of interval and count; transmissions are counted, compared with the first and timed; non-trivial means a distinct setting and number of repetitions before the response"})
	mon.Register(&mon.Check{ID: "C04", CaseLimit: 120 * time.Second, Assumptions: append(udp, "name lookups go to a scripted name server through net.DefaultResolver"), Run: checkC04,
		Rule: "calls to made-up domains whose one to five servers are silent, refuse from the start or later, do not exist, are unavailable or accept, at once or only when asked again; the order of attempts, their transactions and addresses are judged; non-trivial means a distinct sequence of server behaviours"})
}

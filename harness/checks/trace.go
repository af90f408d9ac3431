package checks

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mon"
	"verif/wire"

	"github.com/jart/gosip/sip"
)

// ---------------------------------------------------------------- T08

// A traced packet is an entry of the message trace.
type traced struct {
	dir string
	pkt []byte
}

// traceLog takes the log apart.
type traceLog struct {
	mu   sync.Mutex
	by   map[string][]traced // by the peer's address
	bad  []string
	rows int
}

var traceRE = regexp.MustCompile(`^(send|recv) ([0-9]+) bytes (?:from|to) udp/([^\r\n]+)\r\n(-+)\r\n`)

func (l *traceLog) Write(b []byte) (int, error) {
	m := traceRE.FindSubmatch(b)
	if m == nil {
		return len(b), nil // something else
	}
	n, _ := strconv.Atoi(string(m[2]))
	rest := b[len(m[0]):]
	l.mu.Lock()
	defer l.mu.Unlock()
	l.rows++
	if n > len(rest) || !bytes.HasSuffix(rest, []byte("\n"+string(m[4])+"\r\n")) || len(rest)-n > len(m[4])+4 {
		l.bad = append(l.bad, string(b))
		return len(b), nil
	}
	k := string(m[3])
	l.by[k] = append(l.by[k], traced{string(m[1]), bytes.Clone(rest[:n])})
	return len(b), nil
}

// take returns what was traced with this peer.
func (l *traceLog) take(addr *net.UDPAddr) (send, recv [][]byte) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, t := range l.by[addr.String()] {
		if t.dir == "send" {
			send = append(send, t.pkt)
		} else {
			recv = append(recv, t.pkt)
		}
	}
	delete(l.by, addr.String())
	return
}

func samePackets(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// showPackets lists them.
func showPackets(a [][]byte) string {
	s := ""
	for i, p := range a {
		s += fmt.Sprintf("%d: %q\n", i, p)
	}
	return s
}

// takeStamps takes the time stamps off the topmost hop, newest first.
func takeStamps(v *sip.Via) (out []time.Time, err error) {
	if v == nil {
		return
	}
	for p := v.Param; p != nil; p = p.Next {
		if p.Name == "usi" {
			n, err := strconv.ParseInt(p.Value, 10, 64)
			if err != nil {
				return nil, err
			}
			out = append(out, time.UnixMicro(n))
		}
	}
	v.Param = withoutParams(v.Param, "usi")
	return
}

func checkT08(x *mon.Ctx) {
	sink := &traceLog{by: map[string][]traced{}}
	flags := log.Flags()
	log.SetFlags(0)
	log.SetOutput(sink)
	defer func() {
		log.SetOutput(io.Discard)
		log.SetFlags(flags)
	}()
	for _, mode := range []struct{ trace, stamps bool }{{true, false}, {true, true}, {false, true}, {false, false}} {
		name := fmt.Sprintf("trace=%v-stamps=%v", mode.trace, mode.stamps)
		settings{20000, 2, false, mode.stamps}.apply()
		setFlag("trace", mode.trace)
		x.Run("transport-"+name, x.N(400, 4000), 0, func(c *mon.C) { diagTransport(c, sink, mode.trace, mode.stamps) })
		for _, s := range []settings{{20000, 2, false, mode.stamps}, {150, 1, true, mode.stamps}} {
			s.apply()
			setFlag("trace", mode.trace)
			calls(x, fmt.Sprintf("calls-%s-interval=%d", name, s.interval), x.N(60, 600), 24, func(w *world) { diagCall(w, sink, mode.trace, mode.stamps) })
		}
	}
	settings{interval: 400, resends: 2}.apply()
	sink.mu.Lock()
	x.Count("packets traced", int64(sink.rows))
	if len(sink.bad) > 0 {
		x.Run("log", 1, 1, func(c *mon.C) { c.FailAll("entry", "the trace has a broken entry\n%q", sink.bad[0]) })
	}
	sink.mu.Unlock()
}

// traceIs compares the trace with what went over the wire.
func traceIs(fail func(key, f string, a ...any), what string, tracing bool, got, want [][]byte) bool {
	if !tracing {
		want = nil
	}
	if !samePackets(got, want) {
		fail("trace-"+what, "the trace of packets %s shows\n%swhat went over the wire was\n%s", what, showPackets(got), showPackets(want))
		return false
	}
	return true
}

func diagTransport(c *mon.C, sink *traceLog, tracing, stamps bool) {
	r := c.R
	tp := newTransport(c, loop(r).String(), 0)
	if tp == nil {
		return
	}
	defer shutTransport(tp)
	t := newTap(r)
	defer t.close()
	if r.P(0.2) {
		t.close()
		t = tapOn(net.IPv4(127, 0, 0, 1))
	}
	window := func(st []time.Time, from, to time.Time, want int, what string) bool {
		if !stamps {
			want = 0
		}
		if len(st) != want {
			c.Failf("stamps", "%s has %d time stamps, want %d\n%v", what, len(st), want, st)
			return false
		}
		if want > 0 && (st[0].Before(from.Add(-time.Millisecond)) || st[0].After(to.Add(time.Millisecond))) {
			c.Failf("stamp-time", "%s has the time stamp %v, it was between %v and %v", what, st[0], from, to)
			return false
		}
		return true
	}
	var in [][]byte
	seen := map[string]bool{}
	kinds := ""
	for n, i := r.Range(1, 12), 0; i < n; i++ {
		d := genDatagram(r, seen, fmt.Sprintf("diag%d", i))
		t0 := time.Now()
		sendTo(t.s, tpAddr(tp), d.raw)
		in = append(in, d.raw)
		if d.want == "" {
			continue
		}
		m := nextMsg(c, tp, string(d.raw))
		if m == nil {
			return
		}
		hops := 1
		if m.Via == nil {
			hops = 0
		}
		st, err := takeStamps(m.Via)
		if err != nil || !window(st, t0, time.Now(), hops, "a received message\n"+string(d.raw)) {
			if err != nil {
				c.Failf("stamp", "%v\n%s", err, m)
			}
			return
		}
		if g := received(m); g != d.want {
			c.Failf("changed", "a received message is different:\n%s", diff(d.want, g))
			return
		}
		kinds += " " + d.kind
	}
	var out [][]byte
	for n := r.Range(1, 6); n > 0; n-- {
		m := genMsg(r)
		for m.Status != 0 || m.Method == "ACK" {
			m = genMsg(r)
		}
		m.Route = nil
		m.VersionMajor, m.VersionMinor = 2, 0
		m.Request = &sip.URI{Scheme: "sip", Host: t.addr().IP.String(), Port: uint16(t.addr().Port)}
		m.CSeq, m.MaxForwards, m.UserAgent = max(m.CSeq, 1), 70, "x"
		if m.Contact == nil {
			m.Contact = genAddr(r)
		}
		m.From.Param = &sip.Param{Name: "tag", Value: token(r), Next: withoutParams(m.From.Param, "tag")}
		m.Via.Param = &sip.Param{Name: "branch", Value: token(r), Next: withoutParams(m.Via.Param, "branch")}
		times := r.Pick2(1, 3)
		for k := 1; k <= times; k++ {
			plain := m.Copy()
			takeStamps(plain.Via)
			plain.MaxForwards--
			want, err := sip.ParseMsg([]byte(plain.String()))
			if err != nil {
				c.Failf("unreadable", "%v\n%s", err, plain)
				return
			}
			t0 := time.Now()
			if err := tp.Send(m); err != nil {
				c.Failf("send", "%v", err)
				return
			}
			t1 := time.Now()
			got := t.drain()
			if len(got) != 1 {
				c.Failf("missing", "%d packets came, want 1", len(got))
				return
			}
			out = append(out, got[0])
			g, err := sip.ParseMsg(bytes.Clone(got[0]))
			if err != nil {
				c.Failf("malformed", "%v\n%s", err, got[0])
				return
			}
			st, err := takeStamps(g.Via)
			if err != nil || !window(st, t0, t1, k, "a message sent for the "+fmt.Sprint(k)+". time") {
				if err != nil {
					c.Failf("stamp", "%v\n%s", err, got[0])
				}
				return
			}
			if ok, d := sameMsg(want, g); !ok {
				c.Failf("changed", "a sent message is different:\n%s", d)
				return
			}
		}
	}
	// everything before this has been received and traced
	id := "Call-ID: probe"
	sendTo(t.s, tpAddr(tp), wire.Lines("OPTIONS sip:x SIP/2.0", "Via: SIP/2.0/UDP 192.0.2.1;branch=z9hG4bKp", "From: <sip:a@b>;tag=1", "To: <sip:c@d>", id, "CSeq: 1 OPTIONS", "Max-Forwards: 70", "Content-Length: 0"))
	if nextMsg(c, tp, "probe") == nil {
		return
	}
	send, recv := sink.take(t.addr())
	if n := len(recv); tracing && n > 0 {
		recv = recv[:n-1]
	} else if n > 0 {
		recv = recv[:n]
	}
	if !traceIs(c.Failf, "sent", tracing, send, out) || !traceIs(c.Failf, "received", tracing, recv, in) {
		return
	}
	c.Seen(fmt.Sprintf("in %d out %d%s", len(in), len(out), kinds))
	if tracing && c.ID.Index < 1 {
		c.Sample("trace", "%s", showPackets(send))
	}
}

// diagCall makes a call and compares the trace with the packets at its server.
func diagCall(w *world, sink *traceLog, tracing, stamps bool) {
	r := w.c.R
	v := w.server(0)
	began := time.Now()
	if !w.start(genCall(r, v, callOpt{})) {
		return
	}
	inv := v.request(patience, 0, "INVITE")
	if inv == nil {
		w.fail("no-invite", "no INVITE arrives")
		return
	}
	var last *entry // received by the call for sure
	way := r.IntN(3)
	switch way {
	case 0:
		if r.Bool() {
			v.reply(inv, reply{status: 180, tag: "peer"})
		}
		v.send(inv.from, noMessage(r))
		last = v.reply(inv, reply{status: 486, tag: "peer"})
	case 1: // silence, or if it would be long a call given up
		if current.interval > 1000 {
			w.hangup()
			cancel := v.request(patience, 0, "CANCEL")
			if cancel == nil {
				w.fail("no-cancel", "no CANCEL arrives")
				return
			}
			v.reply(cancel, reply{status: 200, tag: "peer"})
			last = v.reply(inv, reply{status: 487, tag: "peer"})
		}
	default:
		k := w.answer(v, inv, upOpt{provisional: provisional[:r.IntN(3)], body: bodyText("192.0.2.1", 4000, 0)})
		if k == nil {
			return
		}
		k.to = inv.from
		for n := r.IntN(4); n > 0; n-- {
			if r.Bool() {
				v.send(inv.from, noMessage(r))
			}
			if !k.barrier() {
				return
			}
		}
		if r.Bool() {
			last = k.ask(k.p.request("BYE", 1500000000))
		} else {
			w.hangup()
			bye := v.request(patience, 0, "BYE")
			if bye == nil {
				w.fail("no-bye", "no BYE arrives")
				return
			}
			last = v.reply(bye, reply{status: 200})
		}
	}
	if !w.over() {
		return
	}
	w.flush()
	ended := time.Now()
	var out, in [][]byte
	must := 0
	for _, e := range w.snapshot() {
		switch e.kind {
		case "recv":
			out = append(out, e.raw)
			m := e.m
			if m == nil {
				w.fail("malformed", "a packet is no message\n%s", e.raw)
				return
			}
			if m.Status != 0 {
				continue // has the peer's hop
			}
			n := 0
			for i, p := range m.Vias()[0].Params {
				if !strings.EqualFold(p.Name, "usi") {
					continue
				}
				n++
				us, err := strconv.ParseInt(p.Value, 10, 64)
				if at := time.UnixMicro(us); i == 0 && (err != nil || at.Before(began.Add(-time.Millisecond)) || at.After(ended)) {
					w.fail("stamp-time", "the time stamp is %s, the call went from %d to %d\n%s", p.Value, began.UnixMicro(), ended.UnixMicro(), e.raw)
					return
				}
			}
			if stamps && n == 0 || !stamps && n > 0 {
				w.fail("stamps", "%s has %d time stamps, stamping is %v\n%s", m.Method, n, stamps, e.raw)
				return
			}
		case "send":
			in = append(in, e.raw)
			if e == last {
				must = len(in)
			}
		}
	}
	send, recv := sink.take(v.addr())
	if !traceIs(w.fail, "sent", tracing, send, out) {
		return
	}
	if tracing && len(recv) >= must && len(recv) <= len(in) {
		in = in[:len(recv)]
	}
	if !traceIs(w.fail, "received", tracing, recv, in) {
		return
	}
	w.x.Seen(fmt.Sprintf("call way %d out %d in %d trace %v stamps %v", way, len(out), len(in), tracing, stamps))
}

func init() {
	mon.Register(&mon.Check{
		ID:          "T08",
		Rule:        "valid and invalid datagrams of all sizes to transports, requests sent once or repeatedly, and calls of several kinds, under all combinations of tracing and time stamps; the log is compared packet by packet with what went over the wire, stamps with the time, and messages with what they are without; non-trivial means a distinct sequence of packets",
		Assumptions: []string{"loopback UDP delivers in order and, for short bursts, without loss"},
		Race:        true,
		Run:         checkT08,
	})
}

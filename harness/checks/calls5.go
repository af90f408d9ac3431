package checks

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/jart/gosip/sip"
	"verif/mon"
	"verif/wire"
)

// A hub is one server that many calls talk to at once. Each call has a world
// of its own, which sees what carries the call's identifier.
type hub struct {
	s     *net.UDPConn
	mu    sync.Mutex
	calls map[string]*hubCall // by Call-ID
	ticks map[string]*hubCall // by the source of their marks
	all   []*hubCall
	odd   []string // packets of no call
	wg    sync.WaitGroup
}

type hubCall struct {
	h    *hub
	w    *world
	v    *server
	id   string
	inv  *entry
	desc string
	want []string // events
}

func newHub(w *world) *hub {
	s, err := w.listen(loop(w.c.R), 0)
	for i := 0; err != nil && i < 100; i++ {
		s, err = w.listen(loop(w.c.R), 0)
	}
	if err != nil {
		panic(err)
	}
	h := &hub{s: s, calls: map[string]*hubCall{}, ticks: map[string]*hubCall{}}
	h.wg.Add(1)
	go h.read()
	return h
}

func (h *hub) read() {
	defer h.wg.Done()
	buf := make([]byte, 65536)
	for {
		n, from, err := h.s.ReadFromUDP(buf)
		if err != nil {
			if errors.Is(err, net.ErrClosed) {
				return
			}
			continue
		}
		raw := append([]byte{}, buf[:n]...)
		h.mu.Lock()
		if k := h.ticks[from.String()]; k != nil {
			h.mu.Unlock()
			k.w.add(&entry{kind: "mark", srv: k.v, text: string(raw)})
			continue
		}
		m, err := wire.Parse(raw)
		var k *hubCall
		if err == nil {
			k = h.calls[m.Get("call-id")]
		}
		if k == nil {
			h.odd = append(h.odd, string(raw))
		}
		h.mu.Unlock()
		if k != nil {
			k.w.add(&entry{kind: "recv", srv: k.v, m: m, raw: raw, from: from})
		}
	}
}

// join makes a call that goes to the hub.
func (h *hub) join(w *world, i int) *hubCall {
	c := &mon.C{Ctx: w.c.Ctx, R: mon.NewRand(w.c.Seed, w.c.Check.ID, fmt.Sprintf("%s call %d", w.c.ID.Part, i), w.c.ID.Index), ID: w.c.ID}
	k := &hubCall{h: h, w: newWorld(c), id: fmt.Sprintf("hub%d-%d-%d", w.c.ID.Index, i, time.Now().UnixNano())}
	tick, err := net.DialUDP("udp", nil, h.s.LocalAddr().(*net.UDPAddr))
	if err != nil {
		panic(err)
	}
	k.v = &server{w: k.w, s: h.s, tick: tick, name: fmt.Sprintf("P%d", i)}
	k.w.srvs = []*server{k.v}
	h.mu.Lock()
	h.calls[k.id], h.ticks[tick.LocalAddr().String()] = k, k
	h.all = append(h.all, k)
	h.mu.Unlock()
	return k
}

func (h *hub) close() {
	for _, k := range h.all {
		k.w.close()
	}
	h.s.Close()
	h.wg.Wait()
}

// elsewhere sends what is for this call to another call too.
func (k *hubCall) elsewhere(raw []byte) {
	r := k.w.c.R
	k.h.mu.Lock()
	o := k.h.all[r.IntN(len(k.h.all))]
	k.h.mu.Unlock()
	if o == k {
		return
	}
	if e := o.w.find(0, 0, func(e *entry) bool { return isReq(e, "INVITE") }); e != nil && e.from.Port != k.inv.from.Port { // ports are used again
		k.w.x.Count("messages delivered to another call too", 1)
		k.h.s.WriteToUDP(raw, e.from)
	}
}

func (k *hubCall) reply(e *entry, p reply) *entry {
	if k.w.c.R.P(0.4) {
		k.elsewhere(p.to(e.m))
	}
	out := k.v.reply(e, p)
	if k.w.c.R.P(0.2) {
		k.elsewhere(p.to(e.m))
	}
	return out
}

// judge compares the reported events with the script.
func (k *hubCall) judge() {
	if !k.w.over() {
		return
	}
	var got []string
	for _, e := range k.w.events() {
		s := e.String()
		var re *sip.ResponseError
		if e.kind == "err" && errors.As(e.err, &re) && re.Msg != nil {
			s = fmt.Sprintf("rejected %d %s", re.Msg.Status, re.Msg.CallID)
		}
		if s == "closed" || len(got) > 0 && got[len(got)-1] == s && e.kind == "state" {
			continue
		}
		got = append(got, s)
	}
	if fmt.Sprint(got) != fmt.Sprint(k.want) {
		k.w.fail("events", "the call%s reported %v, want %v", k.desc, got, k.want)
	}
}

// script runs one call. gate is open once the other calls are over.
func (k *hubCall) script(tmpl *sip.Msg, gate chan struct{}) {
	w, v, r := k.w, k.v, k.w.c.R
	inv := genCall(r, v, callOpt{})
	if tmpl != nil {
		inv = tmpl.Copy()
	}
	inv.CallID = k.id
	port := r.Range(1024, 65535)
	ip := fmt.Sprintf("192.0.2.%d", r.Range(1, 254))
	if gate != nil {
		w.slow = func() time.Duration { <-gate; return 0 }
	}
	if !w.start(inv) {
		return
	}
	e := v.request(patience, 0, "INVITE")
	if e == nil {
		w.fail("no-invite", "no INVITE arrives")
		return
	}
	k.inv = e
	tag := "tag" + k.id
	state := func(s string) {
		for _, g := range k.want {
			if g == s {
				return
			}
		}
		k.want = append(k.want, s)
	}
	ringing := false
	n := r.Range(0, 3)
	if gate != nil {
		n = 1 // more would wait for the application
	}
	for ; n > 0; n-- {
		st := []int{100, 180, 183}[r.IntN(3)]
		if st != 100 {
			ringing = true
			state("ringing")
		} else if !ringing {
			state("proceeding")
		}
		k.reply(e, reply{status: st, tag: tag})
		nap(r, 3*time.Millisecond)
	}
	if gate != nil {
		<-gate
	}
	end := r.IntN(5)
	k.desc = fmt.Sprintf(" (way %d)", end)
	switch end {
	case 0: // rejected
		st := []int{400, 404, 480, 486, 500, 600, 603}[r.IntN(7)]
		k.reply(e, reply{status: st, tag: tag})
		k.want = append(k.want, fmt.Sprintf("rejected %d %s", st, k.id))
		return
	case 1: // cancelled
		if len(k.want) == 0 {
			state("ringing")
			k.reply(e, reply{status: 180, tag: tag})
		}
		if w.event(patience, 0, k.want[len(k.want)-1]) == nil {
			w.fail("no-event", "%s isn't reported", k.want[len(k.want)-1])
			return
		}
		w.hangup()
		can := v.request(patience, 0, "CANCEL")
		if can == nil {
			w.fail("no-cancel", "no CANCEL arrives")
			return
		}
		k.reply(can, reply{status: 200})
		k.reply(e, reply{status: 487, tag: tag})
		k.want = append(k.want, "rejected 487 "+k.id)
		return
	case 2: // starts again at the same server
		k.reply(e, reply{status: 302, tag: tag, contact: fmt.Sprintf("<sip:again@%s>", v.addr())})
		if e = v.request(patience, e.n+1, "INVITE"); e == nil {
			w.fail("no-invite", "no INVITE arrives after a redirect")
			return
		}
		k.desc += " after a redirect"
	}
	body := bodyText(ip, port, 0)
	k.want = append(k.want, fmt.Sprintf("peer %s:%d", ip, port))
	state("answered")
	ok := k.reply(e, reply{status: 200, tag: tag, contact: v.contact(), body: body})
	if w.event(patience, ok.n, "answered") == nil {
		w.fail("no-answer", "the answer is not reported")
		return
	}
	if v.request(patience, ok.n, "ACK") == nil {
		w.fail("no-ack", "the answer is not acknowledged")
		return
	}
	c := &call{w: w, v: v, inv: e, ok: ok, p: newPeer(r, e.m), to: e.from}
	c.p.tag = tag
	for n := r.Range(0, 3); n > 0; n-- {
		nap(r, 3*time.Millisecond)
		if r.Bool() {
			k.elsewhere(c.p.request(r.Pick("OPTIONS", "BYE", "CANCEL", "INVITE", "ACK"), r.Range(1, 2000000000)))
		}
		if !c.barrier() {
			return
		}
	}
	k.want = append(k.want, "hangup")
	if r.Bool() {
		bye := c.p.request("BYE", 1500000000)
		if r.Bool() {
			k.elsewhere(bye)
		}
		a := c.ask(bye)
		if v.response(patience, a.n, 200, a.m.Get("cseq")) == nil {
			w.fail("no-reply", "BYE is not answered")
		}
		return
	}
	w.hangup()
	bye := v.request(patience, ok.n, "BYE")
	if bye == nil {
		w.fail("no-bye", "no BYE arrives")
		return
	}
	k.reply(bye, reply{status: 200})
}

func checkC12(x *mon.Ctx) {
	for _, loose := range []bool{false, true} {
		settings{20000, 2, loose, false}.apply()
		calls(x, fmt.Sprintf("hub-loose=%v", loose), x.N(60, 1000), 8, func(w *world) {
			r := w.c.R
			h := newHub(w)
			defer h.close()
			n := r.Range(2, 24)
			var tmpl *sip.Msg
			if r.Bool() { // one INVITE, copied for each call
				tmpl = genCall(r, &server{s: h.s}, callOpt{})
				tmpl.CallID = ""
				if r.Bool() {
					tmpl.Payload = nil
				} else {
					tmpl.Payload = &sip.MiscPayload{T: "text/plain", D: []byte("hello")}
				}
				if r.Bool() {
					tmpl.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "me", Host: "127.0.0.1", Param: &sip.URIParam{Name: "ob"}}}
				}
				if r.Bool() {
					tmpl.Via = &sip.Via{Host: "127.0.0.1", Param: &sip.Param{Name: "x"}}
				}
			}
			var ks []*hubCall
			for i := 0; i < n; i++ {
				ks = append(ks, h.join(w, i))
			}
			stuck := r.Range(0, min(2, n-1)) // applications that don't read their events
			gate := make(chan struct{})
			var free, all sync.WaitGroup
			for i, k := range ks {
				all.Add(1)
				var g chan struct{}
				if i < stuck {
					g = gate
				} else {
					free.Add(1)
				}
				wait := time.Duration(r.IntN(10)) * time.Millisecond
				go func() {
					defer all.Done()
					time.Sleep(wait)
					k.script(tmpl, g)
					if !k.w.failed() {
						k.judge()
					}
					if g == nil {
						free.Done()
					}
				}()
			}
			free.Wait()
			close(gate)
			all.Wait()
			for _, k := range ks {
				w.hard = w.hard || k.w.hard
				w.soft = append(w.soft, k.w.soft...)
				for _, e := range k.w.snapshot() {
					switch e.kind {
					case "recv":
						x.Count("packets at the server", 1)
					case "event":
						x.Count("events of calls", 1)
					}
				}
				x.Seen(fmt.Sprintf("call%s %v", k.desc, k.want[:max(0, len(k.want)-1)]))
			}
			h.mu.Lock()
			if len(h.odd) > 0 {
				w.fail("stranger", "the server got what belongs to no call\n%s", h.odd[0])
			}
			h.mu.Unlock()
			x.Count("calls", int64(n))
			x.Seen(fmt.Sprintf("%d calls, %d stuck, template %v", n, stuck, tmpl != nil))
		})
	}
}

func init() {
	mon.Register(&mon.Check{
		ID:          "C12",
		Rule:        "2 to 24 simultaneous calls to one server socket, each with an outcome of its own, some made from copies of one INVITE and some whose application reads nothing until the others are over; messages of calls are also delivered to other calls; each call must report exactly its own history; non-trivial means a distinct outcome or number of calls",
		Assumptions: []string{"loopback UDP delivers the datagrams of one socket in order and without loss"},
		Race:        true,
		Run:         checkC12,
	})
}

package checks

import (
	"encoding/binary"
	"errors"
	"flag"
	"fmt"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"context"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"verif/mon"
	"verif/wire"
)

// A world is one call seen from outside: the scripted peers, what they sent
// and received, and what the call reported, in one log.

const (
	patience = 12 * time.Second // for things that have to happen
)

type entry struct {
	n    int
	at   time.Duration
	kind string // recv, send, event, mark, note
	srv  *server
	m    *wire.Msg // recv (nil if it is no message)
	raw  []byte
	from *net.UDPAddr
	ev   event
	text string
}

type event struct {
	kind  string // state, err, peer, closed
	state int
	err   error
	peer  *net.UDPAddr
}

var stateName = []string{"proceeding", "ringing", "answered", "hangup"}

func (e event) String() string {
	switch e.kind {
	case "state":
		if e.state >= 0 && e.state < 4 {
			return stateName[e.state]
		}
		return fmt.Sprintf("state %d", e.state)
	case "err":
		return fmt.Sprintf("error %q", e.err)
	case "peer":
		return "peer " + e.peer.String()
	}
	return e.kind
}

func (e *entry) String() string {
	w := ""
	if e.srv != nil {
		w = e.srv.name
	}
	s := fmt.Sprintf("%4d %8.1fms %-5s %-3s ", e.n, float64(e.at.Microseconds())/1000, e.kind, w)
	switch e.kind {
	case "event":
		return s + e.ev.String()
	case "recv", "send":
		line := string(e.raw)
		if i := strings.Index(line, "\r\n"); i >= 0 {
			line = line[:i]
		}
		if len(line) > 100 {
			line = line[:100]
		}
		if e.m != nil {
			v := ""
			if vs := e.m.Vias(); len(vs) > 0 {
				v = vs[len(vs)-1].Branch()
			}
			line += fmt.Sprintf(" [cseq %s, branch %s]", e.m.Get("cseq"), v)
		}
		if e.from != nil {
			line += " from " + e.from.String()
		}
		return s + strconv.QuoteToGraphic(line)
	}
	return s + e.text
}

type world struct {
	c      *mon.C
	x      *mon.Ctx
	mu     sync.Mutex
	change chan struct{}
	log    []*entry
	t0     time.Time
	srvs   []*server
	dl     *dialog.Dialog
	ended  bool // all channels are closed
	slow   func() time.Duration
	soft   []string // timing failures, which have to happen again to count
	hard   bool
	quiet  bool // closing down, failures are consequences
	fakes  []string
}

func newWorld(c *mon.C) *world {
	w := &world{c: c, x: c.Ctx, t0: time.Now(), change: make(chan struct{})}
	return w
}

func (w *world) add(e *entry) *entry {
	w.mu.Lock()
	e.n, e.at = len(w.log), time.Since(w.t0)
	w.log = append(w.log, e)
	close(w.change)
	w.change = make(chan struct{})
	w.mu.Unlock()
	return e
}

func (w *world) note(f string, a ...any) { w.add(&entry{kind: "note", text: fmt.Sprintf(f, a...)}) }

func (w *world) snapshot() []*entry {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.log[:len(w.log):len(w.log)]
}

func (w *world) dump() string {
	var b strings.Builder
	log := w.snapshot()
	for i, e := range log {
		if len(log) > 120 && i >= 80 && i < len(log)-40 {
			if i == 80 {
				b.WriteString("  ...\n")
			}
			continue
		}
		b.WriteString("  " + e.String() + "\n")
	}
	return b.String()
}

// stalls remembers how late the timers of this process were.
type stalls struct {
	once sync.Once
	mu   sync.Mutex
	at   []time.Time
	late []time.Duration
}

var stalled stalls

func (s *stalls) start() {
	s.once.Do(func() {
		go func() {
			for {
				t := time.Now()
				time.Sleep(5 * time.Millisecond)
				if d := time.Since(t) - 5*time.Millisecond; d > 5*time.Millisecond {
					s.mu.Lock()
					s.at, s.late = append(s.at, t), append(s.late, d)
					if len(s.at) > 20000 {
						s.at, s.late = s.at[10000:], s.late[10000:]
					}
					s.mu.Unlock()
				}
			}
		}()
	})
}

// worst gives the longest delay since then.
func (s *stalls) worst(since time.Time) (d time.Duration) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := len(s.at) - 1; i >= 0 && s.at[i].After(since.Add(-time.Second)); i-- {
		d = max(d, s.late[i])
	}
	return
}

// current are the settings the calls run under.
var current settings

// fail records a violation with the log of the call.  Under short intervals
// it might be that the call gave up because this process was too slow.
func (w *world) fail(key, f string, a ...any) {
	if current.interval < 1000 {
		if worst := stalled.worst(w.t0); strings.HasPrefix(key, "no-") || worst > time.Duration(current.interval)*time.Millisecond/5 {
			w.late(key, "%s (timers up to %v late)", fmt.Sprintf(f, a...), worst)
			return
		}
	}
	w.mu.Lock()
	q := w.quiet
	w.hard = true
	w.mu.Unlock()
	if q {
		return
	}
	w.c.Failf(key, "%s\n%s", fmt.Sprintf(f, a...), w.dump())
}

// late records a failure that depends on timing.
func (w *world) late(key, f string, a ...any) {
	w.mu.Lock()
	w.soft = append(w.soft, key)
	w.mu.Unlock()
	w.note("TIMING %s: %s", key, fmt.Sprintf(f, a...))
}

func (w *world) failed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.hard || len(w.soft) > 0
}

// wait waits until the condition holds on the log.
func (w *world) wait(limit time.Duration, cond func(log []*entry) bool) bool {
	end := time.NewTimer(limit)
	defer end.Stop()
	for {
		w.mu.Lock()
		ch := w.change
		log := w.log[:len(w.log):len(w.log)]
		w.mu.Unlock()
		if cond(log) {
			return true
		}
		select {
		case <-ch:
		case <-end.C:
			return cond(w.snapshot())
		}
	}
}

// find waits for an entry from position n on.
func (w *world) find(limit time.Duration, n int, pred func(e *entry) bool) (got *entry) {
	w.wait(limit, func(log []*entry) bool {
		for _, e := range log[min(n, len(log)):] {
			if pred(e) {
				got = e
				return true
			}
		}
		return false
	})
	return
}

// event waits for an event of the call.
func (w *world) event(limit time.Duration, n int, s string) *entry {
	return w.find(limit, n, func(e *entry) bool { return e.kind == "event" && strings.HasPrefix(e.ev.String(), s) })
}

func (w *world) events() (out []event) {
	for _, e := range w.snapshot() {
		if e.kind == "event" {
			out = append(out, e.ev)
		}
	}
	return
}

// start makes the call.
func (w *world) start(invite *sip.Msg) bool {
	dl, err := dialog.NewDialog(invite)
	if err != nil {
		w.fail("start", "NewDialog: %v", err)
		return false
	}
	w.dl = dl
	go func() {
		onErr, onState, onPeer := dl.OnErr, dl.OnState, dl.OnPeer
		for onErr != nil || onState != nil || onPeer != nil {
			if w.slow != nil {
				time.Sleep(w.slow())
			}
			select {
			case err, ok := <-onErr:
				if ok {
					w.add(&entry{kind: "event", ev: event{kind: "err", err: err}})
				} else {
					onErr = nil
				}
			case s, ok := <-onState:
				if ok {
					w.add(&entry{kind: "event", ev: event{kind: "state", state: s}})
				} else {
					onState = nil
				}
			case p, ok := <-onPeer:
				if ok {
					w.add(&entry{kind: "event", ev: event{kind: "peer", peer: p}})
				} else {
					onPeer = nil
				}
			}
		}
		w.mu.Lock()
		w.ended = true
		w.mu.Unlock()
		w.add(&entry{kind: "event", ev: event{kind: "closed"}})
	}()
	return true
}

func (w *world) hangup() {
	w.note("application hangs up")
	w.dl.Hangup <- true
}

// over waits for the call to end.
func (w *world) over() bool {
	if w.event(patience, 0, "closed") != nil {
		return true
	}
	w.fail("unfinished", "the call does not end\n%s", w.c.Leftover(0, "gosip"))
	return false
}

// close ends whatever is still going on and closes the peers.
func (w *world) close() {
	if w.dl != nil {
		w.mu.Lock()
		ended := w.ended
		w.quiet = true
		w.mu.Unlock()
		if !ended {
			// A call whose peers are gone ends by itself after a hang-up.
			for _, s := range w.srvs {
				s.mute()
			}
			for i := 0; i < 3 && w.event(0, 0, "closed") == nil; i++ {
				select {
				case w.dl.Hangup <- true:
				default:
				}
				w.killRequest()
				w.event(2*time.Second, 0, "closed")
			}
		}
	}
	for _, s := range w.srvs {
		s.shut()
	}
	for _, f := range w.fakes {
		dns.forget(f)
	}
}

// killRequest makes the call end with a BYE from the peer.
func (w *world) killRequest() {
	for _, e := range w.snapshot() {
		if e.kind == "recv" && e.m != nil && e.m.Method == "INVITE" {
			e.srv.s.WriteToUDP(newPeer(w.c.R, e.m).request("BYE", 2000000000), e.from)
		}
	}
}

// A server is a scripted peer.
type server struct {
	w    *world
	name string
	s    *net.UDPConn
	tick *net.UDPConn
	on   func(e *entry) // called for each message, from the reader
	mu   sync.Mutex
	off  bool
	left bool // its socket is closed
	n    int
	wg   sync.WaitGroup
}

func (w *world) listen(ip net.IP, port int) (*net.UDPConn, error) {
	return net.ListenUDP("udp", &net.UDPAddr{IP: ip, Port: port})
}

// server opens a peer on a fresh loopback address.
func (w *world) server(port int) *server {
	var s *net.UDPConn
	var err error
	for i := 0; i < 100; i++ {
		if s, err = w.listen(loop(w.c.R), port); err == nil {
			break
		}
	}
	if err != nil {
		panic(err)
	}
	return w.serve(s)
}

// beside makes a server on the host of another one.
func (w *world) beside(v *server) *server {
	s, err := w.listen(v.addr().IP, 0)
	if err != nil {
		panic(err)
	}
	return w.serve(s)
}

func (w *world) serve(s *net.UDPConn) *server {
	tick, err := net.DialUDP("udp", nil, s.LocalAddr().(*net.UDPAddr))
	if err != nil {
		panic(err)
	}
	v := &server{w: w, s: s, tick: tick, name: fmt.Sprintf("P%d", len(w.srvs))}
	w.srvs = append(w.srvs, v)
	v.wg.Add(1)
	go v.read()
	return v
}

func (v *server) addr() *net.UDPAddr { return v.s.LocalAddr().(*net.UDPAddr) }
func (v *server) ip() string         { return v.addr().IP.String() }
func (v *server) port() int          { return v.addr().Port }

func (v *server) read() {
	defer v.wg.Done()
	buf := make([]byte, 65536)
	tick := v.tick.LocalAddr().String()
	for {
		n, from, err := v.s.ReadFromUDP(buf)
		if err != nil {
			if errors.Is(err, net.ErrClosed) {
				return
			}
			continue
		}
		raw := append([]byte{}, buf[:n]...)
		if from.String() == tick {
			v.w.add(&entry{kind: "mark", srv: v, text: string(raw)})
			continue
		}
		m, perr := wire.Parse(raw)
		if perr != nil {
			m = nil
		}
		e := v.w.add(&entry{kind: "recv", srv: v, m: m, raw: raw, from: from})
		v.mu.Lock()
		on, off := v.on, v.off
		v.mu.Unlock()
		if on != nil && !off && m != nil {
			on(e)
		}
	}
}

func (v *server) handle(on func(e *entry)) {
	v.mu.Lock()
	v.on = on
	v.mu.Unlock()
}

func (v *server) mute() {
	v.mu.Lock()
	v.off = true
	v.mu.Unlock()
}

// mark puts a mark behind everything the server was sent so far and waits
// until the server has read up to it.
func (v *server) mark() *entry {
	v.mu.Lock()
	if v.left {
		v.mu.Unlock()
		return &entry{}
	}
	v.n++
	text := fmt.Sprintf("mark %d", v.n)
	v.mu.Unlock()
	v.tick.Write([]byte(text))
	return v.w.find(patience, 0, func(e *entry) bool { return e.kind == "mark" && e.srv == v && e.text == text })
}

func (v *server) send(to *net.UDPAddr, raw []byte) *entry {
	m, _ := wire.Parse(raw)
	e := v.w.add(&entry{kind: "send", srv: v, raw: raw, m: m})
	v.s.WriteToUDP(raw, to)
	return e
}

// leave closes the server's socket: whoever sends something is refused. It's
// called by the handler.
func (v *server) leave() {
	v.mu.Lock()
	v.left = true
	v.mu.Unlock()
	v.s.Close()
}

func (v *server) shut() {
	v.s.Close()
	v.tick.Close()
	v.wg.Wait()
}

// recv waits for a message of this kind at the server.
func (v *server) recv(limit time.Duration, n int, pred func(m *wire.Msg) bool) *entry {
	return v.w.find(limit, n, func(e *entry) bool { return e.kind == "recv" && e.srv == v && e.m != nil && pred(e.m) })
}

func (v *server) request(limit time.Duration, n int, method string) *entry {
	return v.recv(limit, n, func(m *wire.Msg) bool { return m.Method == method })
}

func (v *server) response(limit time.Duration, n int, status int, cseq string) *entry {
	return v.recv(limit, n, func(m *wire.Msg) bool { return m.Status == status && m.Get("cseq") == cseq })
}

func isReq(e *entry, method string) bool {
	return e.kind == "recv" && e.m != nil && e.m.Method == method
}

// count counts log entries.
func (w *world) count(pred func(e *entry) bool) (n int) {
	for _, e := range w.snapshot() {
		if pred(e) {
			n++
		}
	}
	return
}

// reply writes a response to a request.
type reply struct {
	status  int
	phrase  string
	tag     string   // added to To unless it has one
	contact string   // Contact header value
	lines   []string // more header lines
	body    []byte   // session description
	vias    []string // instead of those of the request
	cseq    string   // instead
	callid  string   // instead
	version string
}

var phrases = map[int]string{100: "Trying", 180: "Ringing", 183: "Session Progress", 200: "OK", 301: "Moved Permanently",
	302: "Moved Temporarily", 404: "Not Found", 486: "Busy Here", 487: "Request Terminated", 503: "Service Unavailable"}

func (r reply) to(req *wire.Msg) []byte {
	if r.version == "" {
		r.version = "SIP/2.0"
	}
	if r.phrase == "" {
		if r.phrase = phrases[r.status]; r.phrase == "" {
			r.phrase = "Something"
		}
	}
	l := []string{fmt.Sprintf("%s %d %s", r.version, r.status, r.phrase)}
	if r.vias == nil {
		r.vias = req.List("via")
	}
	for _, v := range r.vias {
		l = append(l, "Via: "+v)
	}
	to := req.Get("to")
	if req.Addr("to").Tag() == "" && r.tag != "" {
		to += ";tag=" + r.tag
	}
	or := func(a, b string) string {
		if a == "" {
			return b
		}
		return a
	}
	l = append(l, "From: "+req.Get("from"), "To: "+to, "Call-ID: "+or(r.callid, req.Get("call-id")), "CSeq: "+or(r.cseq, req.Get("cseq")))
	if r.contact != "" {
		l = append(l, "Contact: "+r.contact)
	}
	l = append(l, r.lines...)
	if r.body != nil {
		l = append(l, "Content-Type: application/sdp")
	}
	l = append(l, fmt.Sprintf("Content-Length: %d", len(r.body)))
	return append(wire.Lines(l...), r.body...)
}

func (v *server) reply(req *entry, r reply) *entry { return v.send(req.from, r.to(req.m)) }

// A peer is the remote end of an established call, which sends requests.
type peer struct {
	r      *mon.Rand
	invite *wire.Msg
	tag    string
	sentBy string
	n      int
}

func newPeer(r *mon.Rand, invite *wire.Msg) *peer { return &peer{r: r, invite: invite, tag: "peer"} }

func (p *peer) request(method string, cseq int, lines ...string) []byte {
	return p.requestBody(method, cseq, nil, lines...)
}

// requestBody writes an in-dialog request.  Lines that start with a header the
// request has anyway replace that header; an empty one removes it.
func (p *peer) requestBody(method string, cseq int, body []byte, lines ...string) []byte {
	p.n++
	to := p.invite.Get("to")
	if p.invite.Addr("to").Tag() == "" {
		to += ";tag=" + p.tag
	}
	sentBy := p.sentBy
	if sentBy == "" {
		sentBy = "198.51.100.7:5070"
	}
	contact := wire.Addr{URI: "sip:none.example"}
	if as := p.invite.Addrs("contact"); len(as) > 0 {
		contact = as[0]
	}
	hdr := [][2]string{
		{"", method + " " + contact.URI + " SIP/2.0"},
		{"Via", fmt.Sprintf("SIP/2.0/UDP %s;branch=z9hG4bK-p%d-%08x", sentBy, p.n, p.r.Uint32())},
		{"From", to},
		{"To", p.invite.Get("from")},
		{"Call-ID", p.invite.Get("call-id")},
		{"CSeq", fmt.Sprintf("%d %s", cseq, method)},
		{"Max-Forwards", "70"},
	}
	var extra []string
	for _, l := range lines {
		if strings.HasPrefix(l, "!") { // another start line
			hdr[0][1] = l[1:]
			continue
		}
		i := strings.IndexByte(l, ':')
		done := false
		if i > 0 {
			for k := range hdr {
				if hdr[k][0] == l[:i] && hdr[k][1] != "\x00" {
					if v := strings.TrimSpace(l[i+1:]); v == "" {
						hdr[k][1] = "\x00"
					} else {
						hdr[k][1] = v
					}
					done = true
					break
				}
			}
		}
		if !done {
			extra = append(extra, l)
		}
	}
	var out []string
	for _, h := range hdr {
		if h[1] == "\x00" {
			continue
		}
		if h[0] == "" {
			out = append(out, h[1])
		} else {
			out = append(out, h[0]+": "+h[1])
		}
	}
	out = append(out, extra...)
	if body != nil {
		out = append(out, "Content-Type: application/sdp")
	}
	out = append(out, fmt.Sprintf("Content-Length: %d", len(body)))
	return append(wire.Lines(out...), body...)
}

// bodyText writes a session description.
func bodyText(ip string, audio, video int) []byte {
	fam := "IP4"
	if strings.Contains(ip, ":") {
		fam = "IP6"
	}
	s := "v=0\r\no=- 1 1 IN " + fam + " " + ip + "\r\ns=pokémon\r\nc=IN " + fam + " " + ip + "\r\nt=0 0\r\n"
	if audio > 0 {
		s += fmt.Sprintf("m=audio %d RTP/AVP 0 101\r\na=rtpmap:101 telephone-event/8000\r\na=fmtp:101 0-16\r\n", audio)
	}
	if video > 0 {
		s += fmt.Sprintf("m=video %d RTP/AVP 34\r\na=rtpmap:34 H263/90000\r\n", video)
	}
	return []byte(s)
}

// callOpt is what a generated call may contain.
type callOpt struct {
	routes []string // URIs of preset routes
	host   string   // target host instead of the server's address
	plain  bool
}

// genCall writes an INVITE to the server.
func genCall(r *mon.Rand, v *server, o callOpt) *sip.Msg {
	req := &sip.URI{Scheme: "sip", User: r.Pick("", "alice", "+15551234", "a b", "1000"), Host: v.ip(), Port: uint16(v.port())}
	if o.host != "" {
		req.Host, req.Port = o.host, 0
	}
	if req.User != "" && r.P(0.2) {
		req.Param = &sip.URIParam{Name: "user", Value: "phone"}
	}
	m := &sip.Msg{Method: sip.MethodInvite, Request: req}
	if r.P(0.6) {
		m.To = &sip.Addr{Uri: req.Copy(), Display: r.Pick("", "Alice", "Alice \"A\" O'Neil", "Ünï")}
	}
	if r.P(0.6) {
		m.From = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "bob", Host: "bob.example"}, Display: r.Pick("", "Bob")}
		if r.P(0.4) {
			m.From.Param = &sip.Param{Name: "tag", Value: fmt.Sprintf("mytag%d", r.IntN(1000))}
		}
	}
	if r.P(0.2) {
		m.CallID = fmt.Sprintf("call-%d-%d", r.IntN(1<<30), time.Now().UnixNano())
	}
	if r.P(0.2) {
		m.CSeq = r.Range(1, 1000000)
	}
	if r.P(0.2) {
		m.Subject = "call " + word(r)
	}
	if r.P(0.2) {
		m.XHeader = &sip.XHeader{Name: "X-Test", Value: []byte("some " + word(r))}
	}
	switch {
	case r.P(0.4):
		m.Payload = &sdp.SDP{Audio: &sdp.Media{Port: uint16(r.Range(10000, 40000)), Codecs: []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec}}}
	case r.P(0.5):
		m.Payload = sdp.New(&net.UDPAddr{IP: net.IPv4(192, 0, 2, byte(r.Range(1, 254))), Port: 4000}, sdp.ULAWCodec, sdp.DTMFCodec)
	case r.P(0.3):
		m.Payload = &sip.MiscPayload{T: "text/plain", D: []byte("hello " + word(r))}
	}
	var last *sip.Addr
	for _, u := range o.routes {
		uri, err := sip.ParseURI([]byte(u))
		if err != nil {
			panic(err)
		}
		a := &sip.Addr{Uri: uri}
		if last == nil {
			m.Route = a
		} else {
			last.Next = a
		}
		last = a
	}
	return m
}

func sameParty(a, b wire.Addr) bool { return a.URI == b.URI && a.Tag() == b.Tag() }

// setFlag changes a dialog setting; no call may be going on.
func setFlag(name string, v any) {
	if err := flag.Set(name, fmt.Sprint(v)); err != nil {
		panic(err)
	}
}

type settings struct {
	interval int // ms
	resends  int
	loose    bool
	stamps   bool
}

func (s settings) apply() settings {
	stalled.start()
	current = s
	setFlag("resendInterval", s.interval)
	setFlag("maxResends", s.resends)
	setFlag("looseSignalling", s.loose)
	setFlag("timestampTagging", s.stamps)
	setFlag("trace", s.loose || s.stamps) // the log is thrown away
	return s
}

// calls runs cases that each drive a world.  A case that fails only in timing
// is run again and counts if it fails the same way three times.
func calls(x *mon.Ctx, part string, n, workers int, f func(w *world)) {
	x.Run(part, n, workers, func(c *mon.C) {
		var before []string
		for try := 0; try < 3; try++ {
			c.R = mon.NewRand(c.Seed, c.Check.ID, part, c.ID.Index)
			w := newWorld(c)
			f(w)
			w.close()
			w.mu.Lock()
			soft, hard := w.soft, w.hard
			w.mu.Unlock()
			if hard || len(soft) == 0 {
				if x.Only == nil && c.ID.Index < 2 {
					x.Sample(part, "%s", w.dump())
				}
				x.Count("packets at the peers", int64(w.count(func(e *entry) bool { return e.kind == "recv" })))
				x.Count("events reported", int64(w.count(func(e *entry) bool { return e.kind == "event" && e.ev.kind != "closed" })))
				return
			}
			x.Count("repeated for timing", 1)
			if try > 0 {
				same := ""
				for _, k := range soft {
					for _, b := range before {
						if k == b {
							same = k
						}
					}
				}
				if same == "" {
					before = append(before, soft...)
					continue
				}
				if try == 2 {
					c.Failf(same, "three times in a row\n%s", w.dump())
					return
				}
				before = []string{same}
				continue
			}
			before = soft
		}
	})
}

// dnsServer answers SRV and A questions for the names the cases made up.
type dnsServer struct {
	once sync.Once
	s    *net.UDPConn
	mu   sync.Mutex
	srv  map[string][]srvRec
	a    map[string]net.IP
}

type srvRec struct {
	prio, port int
	target     string
}

var dns dnsServer

func (d *dnsServer) start() {
	d.once.Do(func() {
		s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic(err)
		}
		d.s, d.srv, d.a = s, map[string][]srvRec{}, map[string]net.IP{}
		to := s.LocalAddr().String()
		net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, network, address string) (net.Conn, error) {
			return net.Dial("udp", to)
		}}
		go func() {
			buf := make([]byte, 4096)
			for {
				n, from, err := s.ReadFromUDP(buf)
				if err != nil {
					return
				}
				if out := d.answer(buf[:n]); out != nil {
					s.WriteToUDP(out, from)
				}
			}
		}()
	})
}

func (d *dnsServer) setSRV(name string, recs []srvRec) {
	d.mu.Lock()
	d.srv["_sip._udp."+name+"."] = recs
	d.mu.Unlock()
}

func (d *dnsServer) setA(name string, ip net.IP) {
	d.mu.Lock()
	d.a[name+"."] = ip
	d.mu.Unlock()
}

// forget drops all names that end so.
func (d *dnsServer) forget(suffix string) {
	d.mu.Lock()
	for k := range d.srv {
		if strings.HasSuffix(k, suffix+".") {
			delete(d.srv, k)
		}
	}
	for k := range d.a {
		if strings.HasSuffix(k, suffix+".") {
			delete(d.a, k)
		}
	}
	d.mu.Unlock()
}

func dnsName(n string) (b []byte) {
	for _, l := range strings.Split(strings.TrimSuffix(n, "."), ".") {
		b = append(append(b, byte(len(l))), l...)
	}
	return append(b, 0)
}

func (d *dnsServer) answer(q []byte) []byte {
	if len(q) < 17 {
		return nil
	}
	i, name := 12, ""
	for i < len(q) && q[i] != 0 {
		n := int(q[i])
		if i+1+n > len(q) {
			return nil
		}
		name += string(q[i+1:i+1+n]) + "."
		i += 1 + n
	}
	if i+5 > len(q) {
		return nil
	}
	typ := binary.BigEndian.Uint16(q[i+1:])
	question := q[12 : i+5]
	name = strings.ToLower(name)
	d.mu.Lock()
	defer d.mu.Unlock()
	var rrs [][]byte
	rr := func(typ uint16, data []byte) {
		b := []byte{0xc0, 12}
		b = binary.BigEndian.AppendUint16(b, typ)
		b = binary.BigEndian.AppendUint16(b, 1)
		b = binary.BigEndian.AppendUint32(b, 1)
		b = binary.BigEndian.AppendUint16(b, uint16(len(data)))
		rrs = append(rrs, append(b, data...))
	}
	recs, known := d.srv[name]
	ip, isHost := d.a[name]
	switch {
	case typ == 33 && known:
		for _, r := range recs {
			var b []byte
			b = binary.BigEndian.AppendUint16(b, uint16(r.prio))
			b = binary.BigEndian.AppendUint16(b, 10)
			b = binary.BigEndian.AppendUint16(b, uint16(r.port))
			rr(33, append(b, dnsName(r.target)...))
		}
	case typ == 1 && isHost && ip.To4() != nil:
		rr(1, ip.To4())
	case typ == 28 && isHost && ip.To4() == nil:
		rr(28, ip.To16())
	}
	rcode := byte(0)
	if !known && !isHost {
		rcode = 3
	}
	out := []byte{q[0], q[1], 0x85, 0x80 | rcode, 0, 1, 0, byte(len(rrs)), 0, 0, 0, 0}
	out = append(out, question...)
	for _, r := range rrs {
		out = append(out, r...)
	}
	return out
}

package checks

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"verif/mon"
	"verif/wire"
)

// sound is something that was sent to a media address.
type sound struct {
	to    string
	digit byte // or a frame
	frame rtp.Frame
}

// talker is what an application does with media sessions: it speaks at a
// regular pace and keeps what it hears.
type talker struct {
	r     *mon.Rand
	awgn  *dsp.AWGN
	last  rtp.Frame
	mu    sync.Mutex
	sent  []sound // while a peer was known
	heard []rtp.Frame
	at    map[string][]rtp.Frame // what was heard at each address
	muted bool
	total int
	errs  []error
}

const mostSent = 150 // less than a socket can hold

func (t *talker) next() (f rtp.Frame) {
	switch t.r.IntN(10) {
	case 0: // silence
		return
	case 1: // the same again
		return t.last
	}
	defer func() { t.last = f }()
	if t.awgn != nil {
		for i := range f {
			f[i] = t.awgn.Get()
		}
		return
	}
	for i := range f {
		f[i] = int16(t.r.Uint32())
	}
	return
}

func (t *talker) speak(rs *rtp.Session) {
	t.mu.Lock()
	off := t.muted || t.total >= mostSent
	t.mu.Unlock()
	if off {
		return
	}
	f := t.next()
	keep := f
	err := rs.Send(&f)
	t.note(rs, sound{frame: keep}, err)
}

func (t *talker) press(rs *rtp.Session, ch byte) {
	t.note(rs, sound{digit: ch}, rs.SendDTMF(ch))
}

func (t *talker) note(rs *rtp.Session, s sound, err error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if err != nil {
		t.errs = append(t.errs, err)
	}
	if rs.Peer == nil {
		return
	}
	s.to = rs.Peer.String()
	t.sent = append(t.sent, s)
	t.total++
}

func (t *talker) hear(rs *rtp.Session, f *rtp.Frame) {
	t.mu.Lock()
	t.heard = append(t.heard, *f)
	if t.at == nil {
		t.at = map[string][]rtp.Frame{}
	}
	a := rs.Sock.LocalAddr().String()
	t.at[a] = append(t.at[a], *f)
	t.mu.Unlock()
}

func (t *talker) mute() {
	t.mu.Lock()
	t.muted = true
	t.mu.Unlock()
}

func (t *talker) counts() (sent, heard int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.sent), len(t.heard)
}

// until waits for a condition on the counts.
func (t *talker) until(cond func(sent, heard int) bool) bool {
	for end := time.Now().Add(patience); time.Now().Before(end); time.Sleep(500 * time.Microsecond) {
		if cond(t.counts()) {
			return true
		}
	}
	return cond(t.counts())
}

// phone is an application that makes a call the way fone and the examples do:
// one loop takes care of the media, the call and the user.
type phone struct {
	talker
	w    *world
	rs   *rtp.Session
	do   chan func()
	done chan struct{}
}

func (w *world) phone(invite *sip.Msg, rs *rtp.Session) *phone {
	r := mon.NewRand(w.c.Seed, "phone", w.c.ID.Part, w.c.ID.Index)
	p := &phone{talker: talker{r: r}, w: w, rs: rs, do: make(chan func()), done: make(chan struct{})}
	if r.Bool() {
		g := dsp.NewAWGN(-45)
		p.awgn = g
	}
	dl, err := dialog.NewDialog(invite)
	if err != nil {
		w.fail("start", "NewDialog: %v", err)
		return nil
	}
	w.dl = dl
	go p.run(dl, time.Duration(r.Range(500, 3000))*time.Microsecond)
	return p
}

func (p *phone) run(dl *dialog.Dialog, pace time.Duration) {
	ticker := time.NewTicker(pace)
	defer ticker.Stop()
	report := func(e event) { p.w.add(&entry{kind: "event", ev: e}) }
	defer func() {
		p.rs.Close()
		close(p.done)
		// The rest is to see that nothing more is reported.
		for dl.OnErr != nil || dl.OnState != nil || dl.OnPeer != nil {
			select {
			case err, ok := <-dl.OnErr:
				if !ok {
					dl.OnErr = nil
				} else {
					report(event{kind: "err", err: err})
				}
			case s, ok := <-dl.OnState:
				if !ok {
					dl.OnState = nil
				} else {
					report(event{kind: "state", state: s})
				}
			case a, ok := <-dl.OnPeer:
				if !ok {
					dl.OnPeer = nil
				} else {
					report(event{kind: "peer", peer: a})
				}
			}
		}
		p.w.mu.Lock()
		p.w.ended = true
		p.w.mu.Unlock()
		report(event{kind: "closed"})
	}()
	for {
		select {
		case <-ticker.C:
			p.speak(p.rs)
		case f := <-p.do:
			f()
		case f := <-p.rs.C:
			p.hear(p.rs, f)
			p.rs.R <- f
		case p.rs.Peer = <-dl.OnPeer:
			report(event{kind: "peer", peer: p.rs.Peer})
		case s := <-dl.OnState:
			report(event{kind: "state", state: s})
			if s == dialog.Hangup {
				return
			}
		case err := <-dl.OnErr:
			report(event{kind: "err", err: err})
			return
		case err := <-p.rs.E:
			p.w.fail("media-error", "the media session fails: %v", err)
			return
		}
	}
}

// carried is what a frame sounds like at the other end.
func carried(f rtp.Frame) (out rtp.Frame) {
	for i, v := range f {
		out[i] = int16(ulawDecode(ulawEncode(int(v))))
	}
	return
}

// judgeTaps compares what arrived at the peer's media addresses with what the
// application sent.
func (p *phone) judgeTaps(taps []*tap) bool {
	w := p.w
	left := map[string][][]byte{}
	all := 0
	for _, t := range taps {
		left[t.addr().String()] = t.drain()
		all += len(left[t.addr().String()])
	}
	var pos streamPos
	for i, s := range p.sent {
		have := left[s.to]
		n := 1
		if s.digit != 0 { // the run ends with the third end packet
			for end := 0; n <= len(have); n++ {
				if k, ok := readRTP(have[n-1]); ok && k.pt == 101 && len(k.body) == 4 && k.body[1]&128 != 0 {
					if end++; end == 3 {
						break
					}
				}
			}
		}
		if n > len(have) {
			w.fail("unsent", "item %d of %d that was sent to %s did not arrive", i, len(p.sent), s.to)
			return false
		}
		run := have[:n]
		left[s.to] = have[n:]
		k, ok := readRTP(run[0])
		if !ok || !pos.check(w.c, fmt.Sprintf("item %d, to %s", i, s.to), k) {
			w.fail("stream", "item %d of the stream, % x", i, run[0])
			return false
		}
		pos.seq += uint16(n)
		if s.digit != 0 {
			if _, ok := checkDigit(w.c, s.digit, run); !ok {
				return false
			}
			pos.known = false // the time it takes is up to the sender
			if i+1 < len(p.sent) {
				if q := left[p.sent[i+1].to]; len(q) > 0 {
					if m, ok := readRTP(q[0]); ok {
						if d := m.ts - k.ts; d == 0 || d > 8000 {
							w.fail("stream", "after a digit at %d the stream goes on at %d", k.ts, m.ts)
							return false
						}
						pos = streamPos{true, k.seq + uint16(n), m.ts, k.ssrc}
					}
				}
			}
			continue
		}
		pos.ts += 160
		if k.pt != 0 || len(k.body) != 160 {
			w.fail("audio", "item %d of the stream: %v", i, k)
			return false
		}
		for j, b := range k.body {
			if b != ulawEncode(int(s.frame[j])) {
				w.fail("audio", "sample %d of frame %d is %d, encoded as %02x", j, i, s.frame[j], b)
				return false
			}
		}
	}
	for a, q := range left {
		if len(q) > 0 {
			w.fail("surplus", "%d packets too many at %s, the first: % x", len(q), a, q[0])
			return false
		}
	}
	w.x.Count("media packets at the peers", int64(all))
	return true
}

// judgeHeard compares what one end heard with what the other end said.
func judgeHeard(w *world, who string, heard []rtp.Frame, said []rtp.Frame) bool {
	if len(heard) != len(said) {
		w.fail("unheard", "%s heard %d frames of %d", who, len(heard), len(said))
		return false
	}
	for i := range said {
		if heard[i] != said[i] {
			w.fail("garbled", "%s: frame %d of %d is not what was said", who, i, len(said))
			return false
		}
	}
	w.x.Count("audio frames heard", int64(len(said)))
	return true
}

// offered reads the media address from an INVITE.
func offered(m *wire.Msg) (a *net.UDPAddr, err error) {
	var ip, port string
	for _, l := range strings.Split(string(m.Body), "\r\n") {
		f := strings.Fields(l)
		switch {
		case strings.HasPrefix(l, "c=IN IP4 ") && len(f) == 3 && !strings.Contains(f[2], ":"), strings.HasPrefix(l, "c=IN IP6 ") && len(f) == 3 && strings.Contains(f[2], ":"):
			ip = f[2]
		case strings.HasPrefix(l, "m=audio ") && len(f) >= 4:
			port = f[1]
			if f[2] != "RTP/AVP" || f[3] != "0" {
				return nil, fmt.Errorf("offer %q", l)
			}
		}
	}
	a, err = net.ResolveUDPAddr("udp", net.JoinHostPort(ip, port))
	if err == nil && (a.IP == nil || a.Port == 0) {
		err = fmt.Errorf("no address")
	}
	return
}

// callPeer is a call to a scripted peer.
func callPeer(w *world) {
	r := w.c.R
	v := w.server(0)
	host := r.Pick("", "", "127.0.0.1", v.ip())
	rs := newSession(w.c, host)
	if rs == nil {
		return
	}
	port := rs.Sock.LocalAddr().(*net.UDPAddr).Port
	invite := genCall(r, v, callOpt{})
	media := &sdp.SDP{Audio: &sdp.Media{Port: uint16(port), Codecs: []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec}}}
	if host != "" {
		media.Addr = host
	}
	invite.Payload = media
	p := w.phone(invite, rs)
	if p == nil {
		return
	}
	var taps []*tap
	for i := 0; i < 3; i++ {
		t := newTap(r)
		if i == 1 && r.Bool() { // on the same port as another
			if s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: loop(r), Port: taps[0].addr().Port}); err == nil {
				t.close()
				m, err := net.DialUDP("udp4", nil, s.LocalAddr().(*net.UDPAddr))
				if err != nil {
					panic(err)
				}
				t = &tap{s: s, mark: m}
			}
		}
		defer t.close()
		taps = append(taps, t)
	}
	inv := v.request(patience, 0, "INVITE")
	if inv == nil {
		w.fail("no-invite", "no INVITE arrives")
		return
	}
	at, err := offered(inv.m)
	if err != nil {
		w.fail("offer", "the INVITE offers no media address (%v): %q", err, inv.m.Body)
		return
	}
	if at.Port != port || host != "" && at.IP.String() != host || host == "" && !at.IP.Equal(inv.from.IP) {
		w.fail("offer", "the INVITE offers %v, the media session is at %v and the INVITE comes from %v", at, rs.Sock.LocalAddr(), inv.from)
		return
	}
	mouth, err := net.ListenUDP("udp4", &net.UDPAddr{IP: loop(r)})
	if err != nil {
		panic(err)
	}
	defer mouth.Close()
	var said []rtp.Frame
	out := rtpPkt{v: 2, seq: uint16(r.Uint32()), ts: r.Uint32(), ssrc: r.Uint32()}
	desc := ""
	cur := -1
	say := func() {
		from := mouth
		if cur >= 0 && r.P(0.8) { // people speak where they listen
			from = taps[cur].s
		}
		for n := r.Range(1, 8); n > 0 && len(said) < mostSent; n-- {
			if r.P(0.2) { // something else in between
				o := out
				o.pt, o.body = r.Pick2(101, 13), r.Bytes(r.Range(1, 30))
				from.WriteToUDP(o.bytes(), at)
			}
			if out.body == nil || r.P(0.9) {
				out.body = r.Bytes(160)
			}
			from.WriteToUDP(out.bytes(), at)
			said = append(said, decode(out.body))
			out.seq++
			out.ts += 160
		}
	}
	body := func() []byte {
		n := r.IntN(len(taps))
		if n != cur {
			desc += " move"
			if r.Bool() { // a stream of its own
				out = rtpPkt{v: 2, seq: uint16(r.Uint32()), ts: r.Uint32(), ssrc: r.Uint32()}
			}
		}
		cur = n
		return bodyText(taps[n].addr().IP.String(), taps[n].addr().Port, r.IntN(2)*r.Range(1, 60000))
	}
	moved := func(n int) bool {
		if w.event(patience, n, "peer "+taps[cur].addr().String()) == nil {
			w.fail("no-media", "the media address %v isn't reported", taps[cur].addr())
			return false
		}
		return true
	}
	talk := func() bool {
		was, _ := p.counts()
		if was >= mostSent {
			return true
		}
		n := r.Range(1, 12)
		if !p.until(func(sent, _ int) bool { return sent >= min(was+n, mostSent) }) {
			w.fail("silent", "the application can't speak any more")
			return false
		}
		return true
	}
	do := func(f func()) bool {
		select {
		case p.do <- f:
			return true
		case <-time.After(patience):
			w.fail("stuck", "the application is stuck")
		}
		return false
	}
	say()
	for n := r.IntN(3); n > 0; n-- {
		st := []int{100, 180, 183}[r.IntN(3)]
		rep := reply{status: st, tag: "peer", contact: v.contact()}
		if st != 100 && r.P(0.4) {
			rep.body = body()
		}
		desc += fmt.Sprintf(" %d", st)
		e := v.reply(inv, rep)
		if rep.body != nil {
			if !moved(e.n) || !talk() {
				return
			}
			say()
		}
	}
	o := upOpt{}
	if cur < 0 || r.Bool() {
		o.body = body()
	}
	k := w.answer(v, inv, o)
	if k == nil || o.body != nil && !moved(k.ok.n) {
		return
	}
	seq := r.Range(1, 1000)
	for n := r.Range(1, 7); n > 0; n-- {
		step := r.Pick("say", "say", "talk", "talk", "digit", "digits", "move", "move", "refresh", "again", "query", "late")
		desc += " " + step
		seq++
		switch step {
		case "say":
			say()
		case "talk":
			if !talk() {
				return
			}
		case "digit", "digits":
			m := 1
			if step == "digits" {
				m = r.Range(2, 5)
			}
			ch := dtmfChars[r.IntN(len(dtmfChars))]
			for ; m > 0; m-- {
				key := ch
				if !do(func() { p.press(p.rs, key) }) {
					return
				}
				if r.Bool() {
					ch = dtmfChars[r.IntN(len(dtmfChars))]
				}
			}
		case "move", "refresh":
			var b []byte
			if step == "move" {
				b = body()
			}
			e := k.ask(k.p.requestBody("INVITE", seq, b, "Contact: "+v.contact()))
			if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
				w.fail("no-reply", "a re-INVITE is not answered")
				return
			}
			k.ask(k.p.request("ACK", seq))
			if b != nil && !moved(e.n) {
				return
			}
		case "again":
			v.send(inv.from, k.ok.raw)
		case "query":
			e := k.ask(k.p.request("OPTIONS", seq))
			if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
				w.fail("no-reply", "a query is not answered")
				return
			}
		case "late":
			v.reply(inv, reply{status: 183, tag: "peer", contact: v.contact(), body: bodyText("127.0.0.9", 9, 0)})
		}
	}
	if !p.until(func(_, heard int) bool { return heard >= len(said) }) {
		_, h := p.counts()
		w.fail("unheard", "the application heard %d of %d frames", h, len(said))
		return
	}
	if !k.barrier() {
		return
	}
	if r.Bool() {
		desc += " bye"
		if !k.end() {
			return
		}
	} else {
		desc += " hang-up"
		if !do(func() { w.hangup() }) {
			return
		}
		bye := v.request(patience, k.ok.n, "BYE")
		if bye == nil {
			w.fail("no-bye", "no BYE arrives")
			return
		}
		v.reply(bye, reply{status: 200})
		if !w.over() {
			return
		}
	}
	p.finish(desc)
	if !p.judgeTaps(taps) || !judgeHeard(w, "the caller", p.heard, said) {
		return
	}
	w.x.Seen("peer" + desc)
}

// finish sees that the application came to its end in order.
func (p *phone) finish(desc string) {
	w := p.w
	select {
	case <-p.done:
	case <-time.After(patience):
		w.fail("unfinished", "the media session can't be closed\n%s", w.c.Leftover(0, "gosip"))
		return
	}
	for _, err := range p.errs {
		if strings.Contains(err.Error(), "refused") {
			continue
		}
		w.fail("send", "sending fails: %v", err)
	}
	st := w.states()
	if len(st) == 0 || st[len(st)-1] != "hangup" || strings.Count(strings.Join(st, " "), "answered") != 1 || hasErr(w) != nil {
		w.fail("events", "the call (%s) reported %v, error %v", desc, st, hasErr(w))
	}
	if l := w.c.Leftover(patience, "gosip/rtp.receiver", "gosip/dialog.(*dialogState)", "gosip/dialog.ReceiveMessages"); l != "" {
		w.fail("leftover", "after the call there is still work going on:\n%s", l)
	}
}

// answerer is an application that answers calls, made of a transport and
// media sessions.
type answerer struct {
	talker
	w      *world
	tp     *dialog.Transport
	old    *rtp.Session // before the move
	rs     *rtp.Session
	invite *sip.Msg
	us     *sip.Addr // with our tag
	ack    int       // number of the expected acknowledgement
	cseq   int
	asked  *sip.Msg // our request, until it is answered
	do     chan func()
	done   chan struct{}
	log    chan string
	way    int
}

func (a *answerer) say(f string, v ...any) {
	t := fmt.Sprintf(f, v...)
	a.w.note("callee: %s", t)
	select {
	case a.log <- t:
	default:
		panic("the callee's log is full")
	}
}

func (a *answerer) send(m *sip.Msg) {
	if err := a.tp.Send(m); err != nil {
		a.w.fail("send", "the callee can't send %s: %v", m.CSeqMethod, err)
	}
}

func (a *answerer) response(m *sip.Msg, status int) *sip.Msg {
	rsp := dialog.NewResponse(m, status)
	if m.To.Param.Get("tag") == nil && a.us != nil {
		rsp.To = a.us
	}
	if m.Method == sip.MethodInvite {
		rsp.Contact = a.tp.Contact
	}
	return rsp
}

func (a *answerer) request(method string) *sip.Msg {
	a.cseq++
	return &sip.Msg{Method: method, Request: a.invite.Contact.Uri.Copy(), Via: a.tp.Via.Copy().Branch(), From: a.us, To: a.invite.From, CallID: a.invite.CallID,
		CSeq: a.cseq, CSeqMethod: method, UserAgent: dialog.GosipUA}
}

func (a *answerer) handle(m *sip.Msg) (more bool) {
	switch {
	case m.IsResponse():
		if a.asked == nil || !dialog.ResponseMatch(a.asked, m) {
			return true
		}
		req := a.asked
		a.asked = nil
		if req.Method == sip.MethodInvite {
			a.send(dialog.NewAck(m, req))
		}
		a.say("%s %d", req.Method, m.Status)
		return req.Method != sip.MethodBye
	case m.Method == sip.MethodInvite:
		if a.invite != nil {
			a.say("invite again")
			return true
		}
		ms, ok := m.Payload.(*sdp.SDP)
		if !ok || ms.Audio == nil {
			a.say("no offer")
			return true
		}
		a.invite = m
		a.us = m.To.Copy().Tag()
		a.rs.Peer = &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
		for _, st := range [][]int{{}, {100}, {180}, {100, 180}}[a.way] {
			a.send(a.response(m, st))
		}
		if a.way == 3 { // early media
			rsp := a.response(m, 183)
			rsp.Payload = sdp.New(a.rs.Sock.LocalAddr().(*net.UDPAddr), sdp.ULAWCodec, sdp.DTMFCodec)
			a.send(rsp)
		}
		rsp := a.response(m, 200)
		rsp.Payload = sdp.New(a.rs.Sock.LocalAddr().(*net.UDPAddr), sdp.ULAWCodec, sdp.DTMFCodec)
		a.send(rsp)
		a.ack = m.CSeq
		a.say("invite")
	case m.Method == sip.MethodAck:
		a.say("ack %d", m.CSeq)
	case m.Method == sip.MethodBye:
		a.send(a.response(m, 200))
		a.say("bye")
		return false
	default:
		a.send(a.response(m, 200))
		a.say("%s", m.Method)
	}
	return true
}

func (a *answerer) run(pace time.Duration) {
	defer close(a.done)
	ticker := time.NewTicker(pace)
	defer ticker.Stop()
	none := &rtp.Session{}
	for {
		old := a.old
		if old == nil {
			old = none
		}
		select {
		case <-ticker.C:
			a.speak(a.rs)
		case f := <-a.do:
			f()
		case f := <-a.rs.C:
			a.hear(a.rs, f)
			a.rs.R <- f
		case f := <-old.C:
			a.hear(old, f)
			old.R <- f
		case m, ok := <-a.tp.C:
			if !ok || !a.handle(m) {
				a.rs.Close()
				a.old.Close()
				return
			}
		case err := <-a.tp.E:
			if !errors.Is(err, net.ErrClosed) { // given up
				a.w.fail("transport", "the callee's transport fails: %v", err)
			}
			a.rs.Close()
			a.old.Close()
			return
		case err := <-a.rs.E:
			a.w.fail("media-error", "the callee's media session fails: %v", err)
			return
		}
	}
}

// move opens another media session and tells the caller.
func (a *answerer) move(rs *rtp.Session) {
	rs.Peer = a.rs.Peer
	rs.Header = a.rs.Header
	a.old.Close()
	a.old, a.rs = a.rs, rs
	m := a.request(sip.MethodInvite)
	m.Payload = sdp.New(rs.Sock.LocalAddr().(*net.UDPAddr), sdp.ULAWCodec, sdp.DTMFCodec)
	a.asked = m
	a.send(m)
}

// callEachOther is a call between two applications.
func callEachOther(w *world) {
	r := w.c.R
	home := loop(r).String()
	a := &answerer{talker: talker{r: mon.NewRand(w.c.Seed, "answerer", w.c.ID.Part, w.c.ID.Index)}, w: w, do: make(chan func()), done: make(chan struct{}), log: make(chan string, 1000),
		way: r.IntN(4), cseq: r.Range(1, 1000)}
	if a.tp = newTransport(w.c, home, 0); a.tp == nil {
		return
	}
	shut := sync.OnceFunc(func() { shutTransport(a.tp) })
	defer shut()
	if a.rs = newSession(w.c, home); a.rs == nil {
		return
	}
	rs := newSession(w.c, r.Pick("", "127.0.0.1", loop(r).String()))
	if rs == nil {
		return
	}
	at := rs.Sock.LocalAddr().(*net.UDPAddr)
	invite := genCall(r, &server{s: a.tp.Sock}, callOpt{})
	if at.IP.IsUnspecified() {
		invite.Payload = &sdp.SDP{Audio: &sdp.Media{Port: uint16(at.Port), Codecs: []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec}}}
	} else {
		invite.Payload = sdp.New(at, sdp.ULAWCodec, sdp.DTMFCodec)
	}
	go a.run(time.Duration(r.Range(500, 3000)) * time.Microsecond)
	p := w.phone(invite, rs)
	if p == nil {
		return
	}
	do := func(ch chan func(), f func()) bool {
		select {
		case ch <- f:
			return true
		case <-time.After(patience):
			w.fail("stuck", "an application is stuck")
		}
		return false
	}
	see := func(what string) bool {
		end := time.After(patience)
		for {
			select {
			case t := <-a.log:
				if t == what {
					return true
				}
				if t != "invite again" {
					w.fail("callee", "the callee saw %q, want %q", t, what)
					return false
				}
			case <-end:
				w.fail("callee", "the callee did not see %q", what)
				return false
			}
		}
	}
	if !see("invite") || w.event(patience, 0, "answered") == nil {
		w.fail("no-answer", "the answer is not reported")
		return
	}
	if !see(fmt.Sprintf("ack %d", a.ack)) {
		return
	}
	desc := fmt.Sprintf(" way %d", a.way)
	for n := r.Range(1, 6); n > 0; n-- {
		step := r.Pick("talk", "talk", "digit", "move", "query")
		desc += " " + step
		switch step {
		case "talk":
			s, h := p.counts()
			m := r.Range(1, 10)
			if !p.until(func(sent, heard int) bool { return sent >= min(s+m, mostSent) && heard >= min(h+m, mostSent) }) {
				w.fail("silent", "nothing is heard any more")
				return
			}
		case "digit":
			if !do(p.do, func() { p.press(p.rs, dtmfChars[p.r.IntN(len(dtmfChars))]) }) {
				return
			}
		case "move":
			next := newSession(w.c, home)
			if next == nil {
				return
			}
			to := next.Sock.LocalAddr().String()
			// What is still under way to the session that will be closed is heard first.
			done := make(chan bool)
			if !do(p.do, func() { <-done }) {
				close(done)
				return
			}
			quiet := a.until(func(_, heard int) bool { s, _ := p.frames(); return heard == s })
			close(done)
			if !quiet {
				w.fail("unheard", "the callee does not hear what was said")
				return
			}
			if !do(a.do, func() { a.move(next) }) || !see("INVITE 200") {
				return
			}
			if w.event(patience, 0, "peer "+to) == nil {
				w.fail("no-media", "the media address %s isn't reported", to)
				return
			}
		case "query":
			if !do(a.do, func() { a.asked = a.request(sip.MethodOptions); a.send(a.asked) }) || !see("OPTIONS 200") {
				return
			}
		}
	}
	p.mute()
	a.mute()
	if !do(p.do, func() {}) || !do(a.do, func() {}) {
		return
	}
	said, n := p.frames()
	told, m := a.frames()
	if !a.until(func(_, heard int) bool { return heard >= said }) || !p.until(func(_, heard int) bool { return heard >= told }) {
		w.fail("unheard", "the caller said %d frames, the callee %d; not all were heard", said, told)
		return
	}
	w.x.Count("digits in calls between applications", int64(n+m-said-told))
	if r.Bool() {
		desc += " bye"
		if !do(a.do, func() { a.asked = a.request(sip.MethodBye); a.send(a.asked) }) || !see("BYE 200") {
			return
		}
	} else {
		desc += " hang-up"
		if !do(p.do, func() { w.hangup() }) || !see("bye") {
			return
		}
	}
	if !w.over() {
		return
	}
	select {
	case <-a.done:
	case <-time.After(patience):
		w.fail("unfinished", "the callee can't close its media sessions\n%s", w.c.Leftover(0, "gosip"))
		return
	}
	shut()
	p.finish(desc)
	toCallee := map[string][]rtp.Frame{}
	for _, s := range p.sent {
		if s.digit == 0 {
			toCallee[s.to] = append(toCallee[s.to], carried(s.frame))
		}
	}
	for at, said := range toCallee {
		if !judgeHeard(w, "the callee at "+at, a.at[at], said) {
			return
		}
	}
	if n := len(p.spoken()); len(a.heard) != n {
		w.fail("unheard", "the callee heard %d frames of %d", len(a.heard), n)
		return
	}
	if !judgeHeard(w, "the caller", p.heard, a.spoken()) {
		return
	}
	w.x.Seen("both" + desc)
}

// frames counts the audio frames among what was sent.
func (t *talker) frames() (audio, all int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, s := range t.sent {
		if s.digit == 0 {
			audio++
		}
	}
	return audio, len(t.sent)
}

// spoken is what the other end should have heard.
func (t *talker) spoken() (out []rtp.Frame) {
	for _, s := range t.sent {
		if s.digit == 0 {
			out = append(out, carried(s.frame))
		}
	}
	return
}

func init() {
	mon.Register(&mon.Check{
		ID:          "E01",
		Rule:        "complete calls made by an application with one loop for media and signalling: to scripted peers that move the media, repeat answers, query and hang up, and to an application made of gosip's transport and media sessions; every packet at every media address is compared with what the application sent, in order, everything heard with everything said, and the ends with the script; non-trivial means a distinct history",
		Assumptions: []string{"loopback UDP delivers the datagrams of one socket in order and without loss as long as fewer than 256 wait"},
		Race:        true,
		Run: func(x *mon.Ctx) {
			for _, loose := range []bool{false, true} {
				settings{20000, 2, loose, false}.apply()
				calls(x, fmt.Sprintf("peer-loose=%v", loose), x.N(300, 4000), 16, callPeer)
				calls(x, fmt.Sprintf("both-loose=%v", loose), x.N(200, 3000), 12, callEachOther)
			}
		},
	})
}

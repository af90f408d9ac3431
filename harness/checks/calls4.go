package checks

import (
	"bytes"
	"fmt"
	"net"
	"regexp"
	"strings"
	"time"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"verif/mon"
	"verif/wire"
)

// ownAddresses are addresses of this computer that datagrams to them come from.
var ownAddresses = func() (out []net.IP) {
	try := []net.IP{net.IPv4(127, 0, 0, 1), net.IPv6loopback}
	as, _ := net.InterfaceAddrs()
	for _, a := range as {
		if n, ok := a.(*net.IPNet); ok && !n.IP.IsLoopback() && n.IP.IsGlobalUnicast() {
			try = append(try, n.IP)
		}
	}
	for _, ip := range try {
		s, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip})
		if err != nil {
			continue
		}
		// it has to work both ways
		c, err := net.DialUDP("udp", nil, s.LocalAddr().(*net.UDPAddr))
		if err == nil {
			buf := make([]byte, 16)
			c.Write([]byte("x"))
			s.SetReadDeadline(time.Now().Add(time.Second))
			if _, from, err := s.ReadFromUDP(buf); err == nil && from.IP.Equal(ip) && c.LocalAddr().(*net.UDPAddr).IP.Equal(ip) {
				out = append(out, ip)
			}
			c.Close()
		}
		s.Close()
	}
	return
}()

// serverAt opens a peer on one of the computer's addresses.
func (w *world) serverAt(ip net.IP) *server {
	s, err := w.listen(ip, 0)
	if err != nil {
		panic(err)
	}
	return w.serve(s)
}

// An offer is what the application set in an INVITE.
type offer struct {
	m      *sip.Msg // as set
	invite *sip.Msg // for the call, which completes it
	set    map[string]bool
	sdp    *sdp.SDP // as set
}

var offerParts = []string{"To", "From", "From tag", "Via", "Contact", "CallID", "CSeq", "CSeqMethod", "MaxForwards", "UserAgent", "credentials"}

// genOffer makes an INVITE for the server with the parts of the set given.
func genOffer(r *mon.Rand, v *server, set map[string]bool) *offer {
	o := &offer{set: set}
	m := genMsg(r)
	for m.Status != 0 {
		m = genMsg(r)
	}
	m.VersionMajor, m.VersionMinor = 2, 0
	m.Method = "INVITE"
	dest := &sip.URI{Scheme: "sip", User: plainText(r, 0, 8), Host: v.ip(), Port: uint16(v.port())}
	m.Route = nil
	if r.P(0.3) {
		m.Route = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: dest.Host, Port: dest.Port, Param: &sip.URIParam{Name: "lr"}}, Next: genAddrs(r, 0, 2)}
	} else {
		m.Request = dest
	}
	if m.Request.Scheme == "sips" {
		m.Request.Scheme = "sip"
	}
	m.From.Param = withoutParams(m.From.Param, "tag")
	m.To.Param = withoutParams(m.To.Param, "tag")
	if !set["To"] {
		m.To = nil
	}
	if !set["From"] {
		m.From = nil
	} else if set["From tag"] {
		m.From.Param = &sip.Param{Name: "tag", Value: token(r), Next: m.From.Param}
	}
	if set["Via"] {
		m.Via = &sip.Via{Host: host(r), Param: withoutParams(genParams(r), "branch")}
		if r.P(0.3) {
			m.Via.Param = &sip.Param{Name: "branch", Value: token(r), Next: m.Via.Param}
		}
	} else {
		m.Via = nil
	}
	m.Contact = nil
	if set["Contact"] {
		m.Contact = genAddrs(r, 1, 2)
		for a := m.Contact; a != nil; a = a.Next {
			a.Param = withoutParams(a.Param, "tag")
		}
	}
	if !set["CallID"] {
		m.CallID = ""
	} else {
		m.CallID += fmt.Sprintf("%d", time.Now().UnixNano()) // calls go on at once
	}
	m.CSeq = r.Range(1, 1<<31-2)
	if !set["CSeq"] {
		m.CSeq = 0
	}
	m.CSeqMethod = ""
	if set["CSeqMethod"] {
		m.CSeqMethod = "INVITE"
	}
	m.MaxForwards = r.Range(10, 255)
	if !set["MaxForwards"] {
		m.MaxForwards = 0
	}
	m.UserAgent = ""
	if set["UserAgent"] {
		m.UserAgent = text(r)
	}
	m.Authorization, m.ProxyAuthorization = "", ""
	if set["credentials"] {
		m.Authorization = r.Pick("", `Digest username="bob", realm="x", response="6629fae49393a05397450978507c4ef1"`)
		m.ProxyAuthorization = r.Pick("", `Digest username="bob", realm="proxy", nc=00000001`)
	}
	if r.P(0.6) {
		s := genSDP(r)
		if r.P(0.6) {
			s.Addr = ""
		}
		if r.P(0.6) {
			s.Origin.Addr = ""
		}
		if r.P(0.6) {
			s.Origin.ID = ""
		}
		cp := *s
		o.sdp = &cp
		m.Payload = s
	}
	o.m = m.Copy()
	if o.sdp == nil {
		o.m.Payload = m.Payload
	}
	o.invite = m
	return o
}

// judge compares the n-th INVITE on the wire with what the application set.
func (o *offer) judge(w *world, e *entry, sent int, loose bool) bool {
	c := w.c
	bad := func(key, f string, a ...any) bool {
		w.fail(key, "%s\n%s", fmt.Sprintf(f, a...), e.raw)
		return false
	}
	wm := completeRequest(c, e.raw)
	if wm == nil {
		w.fail("incomplete", "the INVITE is no complete request")
		return false
	}
	g, err := sip.ParseMsg(bytes.Clone(e.raw))
	if err != nil {
		return bad("malformed", "%v", err)
	}
	want := o.m.Copy()
	want.Payload = nil
	if o.set["To"] {
	} else if g.To.Uri.String() != want.Request.String() || g.To.Param != nil {
		return bad("to", "To is %v", g.To)
	} else {
		want.To = g.To
	}
	// Contact leads back to the call.
	ct := g.Contact
	ip, port := e.from.IP.String(), e.from.Port
	if loose {
		if int(ct.Uri.Port) == port {
			return bad("contact", "Contact is %v, the port that accepts the server's datagrams only", ct)
		}
	} else if int(ct.Uri.Port) != port {
		return bad("contact", "Contact is %v, the call is at %v", ct, e.from)
	}
	if !o.set["Contact"] {
		if ct.Next != nil || ct.Uri.Host != ip || ct.Display != "" || ct.Param != nil {
			return bad("contact", "Contact is %v, the call is at %v", ct, e.from)
		}
		want.Contact = ct
	} else {
		want.Contact.Uri.Port = ct.Uri.Port
		if want.Contact.Uri.Param.Get("transport") == nil {
			want.Contact.Uri.Param = &sip.URIParam{Name: "transport", Value: "udp", Next: want.Contact.Uri.Param}
		}
	}
	if tag := g.From.Param.Get("tag"); tag == nil || !tokenRE.MatchString(tag.Value) {
		return bad("tag", "From is %v", g.From)
	}
	if !o.set["From"] {
		if g.From.Next != nil {
			return bad("from", "From is %v", g.From)
		}
		want.From = g.From
	} else if !o.set["From tag"] {
		g.From.Param = withoutParams(g.From.Param, "tag")
	}
	vs := wm.Vias()
	if len(vs) != 1 || !strings.EqualFold(vs[0].Proto, "SIP/2.0/UDP") || vs[0].Port != port || !branchRE.MatchString(vs[0].Branch()) {
		return bad("via", "Via is %+v, the INVITE came from %v", vs, e.from)
	}
	if !o.set["Via"] {
		if strings.Trim(vs[0].Host, "[]") != ip || len(vs[0].Params) != 1 {
			return bad("via", "Via is %+v, the INVITE came from %v", vs, e.from)
		}
		want.Via = g.Via
	} else {
		g.Via.Param = withoutParams(g.Via.Param, "branch")
		want.Via.Param = withoutParams(want.Via.Param, "branch")
		want.Via.Port = g.Via.Port
		want.Via.Protocol, want.Via.Version, want.Via.Transport = g.Via.Protocol, g.Via.Version, g.Via.Transport
	}
	if !o.set["CallID"] {
		if !callRE.MatchString(g.CallID) {
			return bad("callid", "Call-ID is %q", g.CallID)
		}
		want.CallID = g.CallID
	}
	if !o.set["CSeq"] {
		want.CSeq = g.CSeq
	}
	want.CSeqMethod = "INVITE"
	if !o.set["MaxForwards"] {
		want.MaxForwards = 70
	}
	want.MaxForwards -= sent
	if !o.set["UserAgent"] {
		want.UserAgent = g.UserAgent
	}
	if o.sdp != nil {
		gs, ok := g.Payload.(*sdp.SDP)
		if !ok {
			return bad("body", "the session description is gone")
		}
		ws := *o.sdp
		if ws.Addr == "" {
			ws.Addr = ip
		}
		if ws.Origin.Addr == "" {
			ws.Origin.Addr = ip
		}
		if ws.Origin.ID == "" {
			if !numberRE.MatchString(gs.Origin.ID) {
				return bad("origin", "the session has identifier %q", gs.Origin.ID)
			}
			ws.Origin.ID = gs.Origin.ID
		}
		if ws.Addr != gs.Addr || ws.Origin.Addr != gs.Origin.Addr {
			return bad("sdp-address", "the session description has addresses %s and %s (origin), want %s and %s", gs.Addr, gs.Origin.Addr, ws.Addr, ws.Origin.Addr)
		}
		if a, b := ws.String(), string(wm.Body); a != b {
			return bad("body", "the body should be\n%s", a)
		}
	} else {
		want.Payload = o.m.Payload
	}
	gp := g.Payload
	if o.sdp != nil {
		g.Payload = nil
	}
	ok, d := sameMsg(want, g)
	g.Payload = gp
	if !ok {
		return bad("changed", "what was set is not what was sent:\n%s", d)
	}
	return true
}

var numberRE = regexp.MustCompile(`^[0-9]+$`)

// reachable checks that requests to the INVITE's Contact reach the call.
func (o *offer) reachable(w *world, k *call, e *entry) bool {
	_, port := wire.URIHostPort(e.m.Addrs("contact")[0].URI)
	k.to = &net.UDPAddr{IP: e.from.IP, Port: port, Zone: e.from.Zone}
	if !k.barrier() {
		return false
	}
	for _, a := range w.snapshot() {
		if isAck(a) && (a.m.Get("authorization") != strings.TrimSpace(o.m.Authorization) || a.m.Get("proxy-authorization") != strings.TrimSpace(o.m.ProxyAuthorization)) {
			w.fail("credentials", "the ACK doesn't carry the credentials of the call\n%s", a.raw)
			return false
		}
	}
	return true
}

func checkC11(x *mon.Ctx) {
	dns.start()
	finish := func(w *world, o *offer, v *server, e *entry) {
		r := w.c.R
		if r.P(0.3) {
			v.reply(e, reply{status: 486, tag: "peer"})
			w.rejectedWith(486)
			w.flush()
			for _, a := range w.snapshot() {
				if isAck(a) && (a.m.Get("authorization") != o.m.Authorization || a.m.Get("proxy-authorization") != o.m.ProxyAuthorization) {
					w.fail("credentials", "the ACK doesn't carry the credentials of the call\n%s", a.raw)
				}
			}
			return
		}
		k := w.answer(v, e, upOpt{})
		if k == nil || !o.reachable(w, k, e) {
			return
		}
		k.end()
	}
	content := func(loose bool) func(w *world) {
		return func(w *world) {
			r := w.c.R
			set := map[string]bool{}
			name := ""
			bits := r.IntN(1 << len(offerParts))
			for i, p := range offerParts {
				if bits>>i&1 == 1 {
					set[p] = true
					name += " " + p
				}
			}
			v := w.serverAt(ownAddresses[r.IntN(len(ownAddresses))])
			o := genOffer(r, v, set)
			if !w.start(o.invite) {
				return
			}
			e := v.request(patience, 0, "INVITE")
			if e == nil {
				w.fail("no-invite", "no INVITE arrives")
				return
			}
			if !o.judge(w, e, 1, loose) {
				return
			}
			finish(w, o, v, e)
			w.x.Seen("preset" + name)
		}
	}
	moves := func(loose bool) func(w *world) {
		return func(w *world) {
			r := w.c.R
			dom := fmt.Sprintf("m%d-%d.%s.test", w.c.ID.Index, time.Now().UnixNano()%1000000, strings.ToLower(strings.ReplaceAll(w.c.ID.Part, "=", "-")))
			w.fakes = append(w.fakes, dom)
			set := map[string]bool{}
			for _, p := range offerParts {
				if r.P(0.25) {
					set[p] = true
				}
			}
			n := r.Range(2, 4)
			var srvs []*server
			for i := 0; i < n; i++ {
				srvs = append(srvs, w.serverAt(ownAddresses[r.IntN(len(ownAddresses))]))
			}
			o := genOffer(r, srvs[0], set)
			o.m.Route, o.invite.Route = nil, nil
			o.invite.Request = &sip.URI{Scheme: "sip", User: plainText(r, 0, 8), Host: dom}
			o.m.Request = o.invite.Request.Copy()
			published := r.Range(1, n)
			var recs []srvRec
			for i := 0; i < published; i++ {
				t := fmt.Sprintf("s%d.%s", i, dom)
				dns.setA(t, srvs[i].addr().IP)
				recs = append(recs, srvRec{prio: 10 * i, port: srvs[i].port(), target: t})
			}
			dns.setSRV(dom, recs)
			if !w.start(o.invite) {
				return
			}
			desc := ""
			to := o.m.Request
			for i, v := range srvs {
				e := v.request(patience, 0, "INVITE")
				if e == nil {
					w.fail("no-invite", "no INVITE arrives at server %d of %d, %d published", i, n, published)
					return
				}
				was := o.m.Request
				o.m.Request = to
				ok := o.judge(w, e, i+1, loose)
				o.m.Request = was
				if !ok {
					return
				}
				if i == 0 { // from now on it's all the same call
					g, _ := sip.ParseMsg(bytes.Clone(e.raw))
					o.m.CallID, o.m.CSeq, o.m.To, o.m.From = g.CallID, g.CSeq, g.To, g.From
					for _, p := range []string{"CallID", "CSeq", "To", "From", "From tag"} {
						o.set[p] = true
					}
					if o.sdp != nil && o.sdp.Origin.ID == "" {
						o.sdp.Origin.ID = g.Payload.(*sdp.SDP).Origin.ID
					}
				}
				desc += " " + e.from.IP.String()
				if i == n-1 {
					finish(w, o, v, e)
					break
				}
				if r.Bool() {
					v.reply(e, reply{status: provisional[r.IntN(3)], tag: "x"})
				}
				if i < published-1 {
					v.reply(e, reply{status: 503, tag: "x"})
				} else {
					to = &sip.URI{Scheme: "sip", User: "next", Host: srvs[i+1].ip(), Port: uint16(srvs[i+1].port())}
					v.reply(e, reply{status: []int{301, 302}[r.IntN(2)], tag: "x", contact: "<" + to.String() + ">"})
					desc += " redirects"
				}
			}
			w.x.Seen(fmt.Sprintf("moves%s sdp=%v via=%v contact=%v", desc, o.sdp != nil, set["Via"], set["Contact"]))
		}
	}
	for _, loose := range []bool{false, true} {
		settings{5000, 2, loose, false}.apply()
		calls(x, fmt.Sprintf("content-loose=%v", loose), x.N(500, 10000), 32, content(loose))
		calls(x, fmt.Sprintf("moves-loose=%v", loose), x.N(200, 4000), 32, moves(loose))
	}
	x.Count("addresses of this computer used", int64(len(ownAddresses)))
}

func init() {
	mon.Register(&mon.Check{
		ID:   "C11",
		Rule: "calls whose INVITE has a random subset of its parts preset with generated values, to servers on every address of this computer, directly, after failover and after redirects; each INVITE is compared with what was set and with where it came from, and a request is sent to its Contact; non-trivial means a distinct subset or sequence of local addresses",
		Assumptions: []string{"loopback UDP delivers the datagrams of one socket in order and without loss",
			"local addresses can only be told apart as far as this computer has several (IPv6 loopback, network interfaces)"},
		Race: true,
		Run:  checkC11,
	})
}

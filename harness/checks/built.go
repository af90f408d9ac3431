package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verif/mon"
	"verif/wire"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
)

// ---------------------------------------------------------------- T09

// reasons are the standard reason phrases, from RFC 3261 section 21 and the
// documents that define the others.
var reasons = map[int]string{100: "Trying", 180: "Ringing", 181: "Call Is Being Forwarded", 182: "Queued", 183: "Session Progress",
	200: "OK", 202: "Accepted", 204: "No Notification", 300: "Multiple Choices", 301: "Moved Permanently", 302: "Moved Temporarily",
	305: "Use Proxy", 380: "Alternative Service", 400: "Bad Request", 401: "Unauthorized", 402: "Payment Required", 403: "Forbidden",
	404: "Not Found", 405: "Method Not Allowed", 406: "Not Acceptable", 407: "Proxy Authentication Required", 408: "Request Timeout",
	410: "Gone", 412: "Conditional Request Failed", 413: "Request Entity Too Large", 414: "Request-URI Too Long", 415: "Unsupported Media Type",
	416: "Unsupported URI Scheme", 420: "Bad Extension", 421: "Extension Required", 422: "Session Interval Too Small", 423: "Interval Too Brief",
	480: "Temporarily Unavailable", 481: "Call/Transaction Does Not Exist", 482: "Loop Detected", 483: "Too Many Hops", 484: "Address Incomplete",
	485: "Ambiguous", 486: "Busy Here", 487: "Request Terminated", 488: "Not Acceptable Here", 489: "Bad Event", 491: "Request Pending",
	493: "Undecipherable", 494: "Security Agreement Required", 500: "Server Internal Error|Internal Server Error", 501: "Not Implemented",
	502: "Bad Gateway", 503: "Service Unavailable", 504: "Server Time-out|Gateway Time-out", 505: "Version Not Supported", 513: "Message Too Large",
	580: "Precondition Failure", 600: "Busy Everywhere", 603: "Decline", 604: "Does Not Exist Anywhere", 606: "Not Acceptable"}

var reasonCodes = func() (l []int) {
	for s := 100; s < 700; s++ {
		if reasons[s] != "" {
			l = append(l, s)
		}
	}
	return
}()

func goodReason(status int, phrase string) bool {
	for _, w := range strings.Split(reasons[status], "|") {
		if strings.EqualFold(w, phrase) {
			return true
		}
	}
	return false
}

// turned is an address list in reverse, made here.
func turned(a *sip.Addr) *sip.Addr {
	var out *sip.Addr
	for ; a != nil; a = a.Next {
		b := *a
		b.Next = out
		out = &b
	}
	return out
}

// anyInvite is an invite with or without everything that its companions take
// over.
func anyInvite(r *mon.Rand) *sip.Msg {
	m := genMsg(r)
	for m.Status != 0 {
		m = genMsg(r)
	}
	m.Method, m.CSeqMethod = "INVITE", "INVITE"
	m.CSeq = r.Range(1, 1<<31-100)
	m.Via = genVia(r, 1, 1)
	m.Via.Param = &sip.Param{Name: "branch", Value: "z9hG4bK" + token(r), Next: withoutParams(m.Via.Param, "branch")}
	m.From.Param = &sip.Param{Name: "tag", Value: token(r), Next: withoutParams(m.From.Param, "tag")}
	m.To.Param = withoutParams(m.To.Param, "tag")
	if r.Bool() {
		m.Authorization = "Digest " + text(r)
	}
	if r.Bool() {
		m.ProxyAuthorization = "Digest " + text(r)
	}
	if r.Bool() {
		m.Route = genAddrs(r, 1, 4)
	}
	return m
}

// answerTo is a response as the other side would write it.
func answerTo(r *mon.Rand, invite *sip.Msg, status int) *sip.Msg {
	m := genMsg(r)
	for m.Status == 0 {
		m = genMsg(r)
	}
	m.Status = status
	m.Via, m.From, m.To, m.CallID, m.CSeq, m.CSeqMethod = invite.Via.Copy(), invite.From.Copy(), invite.To.Copy(), invite.CallID, invite.CSeq, invite.CSeqMethod
	m.To.Param = &sip.Param{Name: "tag", Value: token(r), Next: m.To.Param}
	if r.P(0.2) {
		m.Via.Last().Next = genVia(r, 1, 2)
	}
	m.Contact = nil
	if status < 300 || r.Bool() {
		m.Contact = genAddrs(r, 1, 2)
	}
	m.RecordRoute = nil
	if r.P(0.7) {
		m.RecordRoute = genAddrs(r, 1, 5)
	}
	return m
}

// compareBuilt compares a message with what it has to be. How a message names
// the software, and what is optional, is left to the library.
func compareBuilt(c *mon.C, kind string, want, got *sip.Msg) bool {
	if got == nil {
		c.Failf(kind+"-nothing", "nothing was built")
		return false
	}
	g := got.Copy()
	g.XHeader = got.XHeader
	g.Payload = got.Payload
	g.UserAgent, g.Server, g.Allow, g.Supported, g.Accept, g.Date = "", "", "", "", "", ""
	if g.MaxForwards == 70 {
		g.MaxForwards = 0
	}
	w := want.Copy()
	w.VersionMajor, w.VersionMinor = g.VersionMajor, g.VersionMinor
	if g.VersionMajor != 0 && g.VersionMajor != 2 || g.VersionMinor != 0 {
		c.Failf(kind+"-version", "built for version %d.%d", g.VersionMajor, g.VersionMinor)
		return false
	}
	if d1, d2 := dump(w), dump(g); d1 != d2 {
		c.Failf(kind, "what was built is wrong:\n%s", diff(d1, d2))
		return false
	}
	return true
}

func checkT09(x *mon.Ctx) {
	x.Run("phrases", 1, 1, func(c *mon.C) {
		req := anyInvite(c.R)
		for _, s := range reasonCodes {
			c.Eval(1)
			if m := dialog.NewResponse(req, s); !goodReason(s, m.Phrase) {
				c.Failf("phrase", "the reason of %d is %q, the standard says %q", s, m.Phrase, reasons[s])
			}
			m := dialog.NewResponse(req, s)
			m.Phrase = ""
			if l, _, _ := strings.Cut(m.String(), "\r\n"); !strings.HasPrefix(l, fmt.Sprintf("SIP/2.0 %d ", s)) || !goodReason(s, l[12:]) {
				c.Failf("phrase", "a response %d without reason starts %q, the standard says %q", s, l, reasons[s])
			}
			c.Seen(fmt.Sprint("phrase ", s))
		}
	})
	x.Run("values", x.N(6000, 100000), 0, func(c *mon.C) {
		r := c.R
		invite := anyInvite(r)
		inviteWas := dump(invite)
		status := reasonCodes[r.IntN(len(reasonCodes))]
		kept := func(what string, m *sip.Msg, was string) bool {
			if d := dump(m); d != was {
				c.Failf("modified", "building the %s changed what it was built from:\n%s", what, diff(was, d))
				return false
			}
			return true
		}

		// A response to any request.
		req := genMsg(r)
		for req.Status != 0 {
			req = genMsg(r)
		}
		reqWas := dump(req)
		rsp := dialog.NewResponse(req, status)
		want := &sip.Msg{Status: status, Phrase: rsp.Phrase, Via: req.Via, From: req.From, To: req.To, CallID: req.CallID, CSeq: req.CSeq, CSeqMethod: req.CSeqMethod, RecordRoute: req.RecordRoute}
		if !compareBuilt(c, "response", want, rsp) || !kept("response", req, reqWas) {
			return
		}
		if !goodReason(status, rsp.Phrase) {
			c.Failf("phrase", "the reason of %d is %q", status, rsp.Phrase)
			return
		}

		// An ACK for an answer.
		ans := answerTo(r, invite, r.Pick2(200, 200+r.IntN(100)))
		if r.P(0.3) {
			ans = answerTo(r, invite, r.Range(300, 699))
		}
		ansWas := dump(ans)
		ack := dialog.NewAck(ans, invite)
		want = &sip.Msg{Method: "ACK", Request: invite.Request, From: ans.From, To: ans.To, CallID: ans.CallID, CSeq: ans.CSeq, CSeqMethod: "ACK", Route: turned(ans.RecordRoute),
			Authorization: invite.Authorization, ProxyAuthorization: invite.ProxyAuthorization}
		hop := *ans.Via
		hop.Next = nil
		want.Via = &hop
		if ans.Contact != nil {
			want.Request = ans.Contact.Uri
		}
		if ans.Status >= 300 { // where it goes is not what this is about
			want.Request, want.Route = ack.Request, ack.Route
		}
		if !compareBuilt(c, "ack", want, ack) || !kept("ACK", ans, ansWas) || !kept("ACK", invite, inviteWas) {
			return
		}
		if !dialog.AckMatch(invite, ack) {
			c.Failf("ack-match", "the ACK does not match its invite\n%s\n%s", invite, ack)
			return
		}

		// A CANCEL.
		can := dialog.NewCancel(invite)
		want = &sip.Msg{Method: "CANCEL", Request: invite.Request, Via: invite.Via, From: invite.From, To: invite.To, CallID: invite.CallID, CSeq: invite.CSeq, CSeqMethod: "CANCEL", Route: invite.Route}
		if !compareBuilt(c, "cancel", want, can) || !kept("CANCEL", invite, inviteWas) {
			return
		}

		// BYEs.
		ans = answerTo(r, invite, 200)
		ansWas = dump(ans)
		var lseq *int
		last := invite.CSeq
		if r.P(0.7) {
			last += r.IntN(20)
			l := last
			lseq = &l
		}
		for n := r.Range(1, 3); n > 0; n-- {
			bye := dialog.NewBye(invite, ans, lseq)
			last++
			want = &sip.Msg{Method: "BYE", Request: ans.Contact.Uri, From: invite.From, To: ans.To, CallID: invite.CallID, CSeq: last, CSeqMethod: "BYE", Route: turned(ans.RecordRoute)}
			if bye != nil {
				want.CSeqMethod = bye.CSeqMethod // filled in when it is sent
			}
			if bye != nil && bye.CSeqMethod != "" && bye.CSeqMethod != "BYE" {
				c.Failf("bye", "sequence method %q", bye.CSeqMethod)
				return
			}
			if !compareBuilt(c, "bye", want, bye) || !kept("BYE", ans, ansWas) || !kept("BYE", invite, inviteWas) {
				return
			}
			if lseq == nil {
				last--
			} else if *lseq != last {
				c.Failf("bye-number", "the last number used is kept as %d, it is %d", *lseq, last)
				return
			}
		}
		c.Eval(4)
		c.Count("messages built", 4)
		c.Seen(fmt.Sprint(status, req.Method, req.RecordRoute.Len(), hopCount(req.Via), ans.RecordRoute.Len(), invite.Authorization != "", lseq != nil))
	})
	x.Run("responses", x.N(1500, 15000), 0, builtResponses)
	x.Run("requests", x.N(800, 8000), 0, builtRequests)
}

// builtResponses has requests answered over the wire.
func builtResponses(c *mon.C) {
	r := c.R
	tp := newTransport(c, loop(r).String(), 0)
	if tp == nil {
		return
	}
	defer shutTransport(tp)
	t := newTap(r)
	defer t.close()
	for n := r.Range(1, 4); n > 0; n-- {
		req := genMsg(r)
		for req.Status != 0 || len(req.String()) > 1500 {
			req = genMsg(r)
		}
		req.VersionMajor, req.VersionMinor = 2, 0
		req.MaxForwards = r.Range(1, 200)
		req.Route = nil
		req.Via.Host, req.Via.Port = t.addr().IP.String(), uint16(t.addr().Port)
		req.Via.Param = withoutParams(req.Via.Param, "received", "rport", "branch")
		req.Via.Param = &sip.Param{Name: "branch", Value: "z9hG4bK" + token(r), Next: req.Via.Param}
		if r.P(0.6) {
			req.RecordRoute = genAddrs(r, 1, 5)
		}
		for len(req.String()) > 1990 && req.RecordRoute != nil {
			req.RecordRoute = req.RecordRoute.Next
		}
		raw := []byte(req.String())
		if len(raw) > 1990 {
			continue
		}
		sendTo(t.s, tpAddr(tp), raw)
		in := nextMsg(c, tp, "request")
		if in == nil {
			return
		}
		status := reasonCodes[r.IntN(len(reasonCodes))]
		rsp := dialog.NewResponse(in, status)
		if err := tp.Send(rsp); err != nil {
			c.Failf("error", "the response is not sent: %v\n%s", err, raw)
			return
		}
		got := t.drain()
		if len(got) != 1 {
			c.Failf("missing", "%d packets were sent for one response", len(got))
			return
		}
		w, err := wire.Parse(got[0])
		if err != nil {
			c.Failf("malformed", "%v\n%s", err, got[0])
			return
		}
		if w.Status != status {
			c.Failf("wire-status", "the response says %d, want %d\n%s", w.Status, status, got[0])
			return
		}
		g, err := sip.ParseMsg(bytes.Clone(got[0]))
		if err != nil {
			c.Failf("malformed", "%v\n%s", err, got[0])
			return
		}
		a, b := strings.Join(hopTexts(req.Via, 0), ", "), strings.Join(hopTexts(g.Via, 0), ", ")
		if a != b || dump(g.From) != dump(req.From) || dump(g.To) != dump(req.To) || dump(g.RecordRoute) != dump(req.RecordRoute) ||
			g.CallID != req.CallID || g.CSeq != req.CSeq || g.CSeqMethod != req.CSeqMethod || !goodReason(status, g.Phrase) {
			c.Failf("wire-response", "the response does not carry what the request did:\n%s\n%s", raw, got[0])
			return
		}
		c.Eval(1)
		c.Count("responses on the wire", 1)
		c.Seen(fmt.Sprint("rsp", status, req.RecordRoute.Len(), hopCount(req.Via)))
	}
}

// builtRequests has an invite answered, acknowledged, cancelled and ended over
// the wire.
func builtRequests(c *mon.C) {
	r := c.R
	tp := newTransport(c, loop(r).String(), 0)
	if tp == nil {
		return
	}
	defer shutTransport(tp)
	t := newTap(r)
	defer t.close()
	ip, port := t.addr().IP.String(), uint16(t.addr().Port)
	to := genAddr(r)
	to.Uri.Scheme, to.Uri.Host, to.Uri.Port = "sip", ip, port
	to.Param = withoutParams(to.Param, "tag")
	invite := dialog.NewRequest(tp, "INVITE", to, nil)
	if r.P(0.5) {
		hops := []*sip.Addr{routeHop(r, ip, port, true)}
		for n := r.IntN(3); n > 0; n-- {
			hops = append(hops, routeHop(r, host(r), 5060, r.Bool()))
		}
		invite.Route = listOf(hops)
		invite.Request = genURI(r)
	}
	if r.Bool() {
		invite.Authorization = "Digest realm=\"" + token(r) + "\""
	}
	get := func(what string, m *sip.Msg) (*wire.Msg, *sip.Msg) {
		if err := tp.Send(m); err != nil {
			c.Failf("error", "the %s is not sent: %v\n%s", what, err, m)
			return nil, nil
		}
		got := t.drain()
		if len(got) != 1 {
			c.Failf("missing", "%d packets were sent for one %s", len(got), what)
			return nil, nil
		}
		w, err := wire.Parse(got[0])
		if err != nil || len(got[0]) > 2000 {
			if err != nil {
				c.Failf("malformed", "%s: %v\n%s", what, err, got[0])
			}
			return nil, nil
		}
		g, err := sip.ParseMsg(bytes.Clone(got[0]))
		if err != nil {
			c.Failf("malformed", "%s: %v\n%s", what, err, got[0])
			return nil, nil
		}
		if w.Method != what || g.CSeqMethod != what {
			c.Failf("wire-method", "a %s is sent as %s", what, got[0])
			return nil, nil
		}
		c.Count("requests on the wire", 1)
		return w, g
	}
	_, inv := get("INVITE", invite)
	if inv == nil {
		return
	}
	// The other side answers, over proxies of which the first is the tap.
	ans := &sip.Msg{VersionMajor: 2, Status: 200, Phrase: "OK", Via: inv.Via.Copy(), From: inv.From.Copy(), To: inv.To.Copy(), CallID: inv.CallID, CSeq: inv.CSeq, CSeqMethod: "INVITE"}
	ans.To.Param = &sip.Param{Name: "tag", Value: token(r), Next: ans.To.Param}
	ans.Contact = &sip.Addr{Uri: genURI(r)}
	ans.Contact.Uri.Scheme = "sip"
	if n := r.IntN(4); n > 0 {
		var hops []*sip.Addr
		for ; n > 1; n-- {
			hops = append(hops, routeHop(r, host(r), port, true))
		}
		ans.RecordRoute = listOf(append(hops, routeHop(r, ip, port, true)))
	} else {
		ans.Contact.Uri.Host, ans.Contact.Uri.Port = ip, port
	}
	raw := []byte(ans.String())
	if len(raw) > 2000 {
		return
	}
	sendTo(t.s, tpAddr(tp), raw)
	in := nextMsg(c, tp, "answer")
	if in == nil {
		return
	}
	hop := func(m *sip.Msg) bool {
		return hopCount(m.Via) == 1 && m.Via.Host == tpAddr(tp).IP.String() && int(m.Via.Port) == tpAddr(tp).Port
	}
	w, g := get("ACK", dialog.NewAck(in, invite))
	if g == nil {
		return
	}
	route := dump(turned(ans.RecordRoute))
	if w.URI != ans.Contact.Uri.String() && dump(g.Request) != dump(ans.Contact.Uri) || dump(g.Route) != route || dump(g.From) != dump(ans.From) || dump(g.To) != dump(ans.To) ||
		g.CallID != inv.CallID || g.CSeq != inv.CSeq || !hop(g) || g.Authorization != inv.Authorization || !dialog.AckMatch(inv, g) {
		c.Failf("wire-ack", "the ACK is not right for\n%s\n%s", raw, g)
		return
	}
	if _, g = get("CANCEL", dialog.NewCancel(invite)); g == nil {
		return
	}
	if dump(g.Request) != dump(inv.Request) || dump(g.Route) != dump(inv.Route) || dump(g.From) != dump(inv.From) || dump(g.To) != dump(inv.To) || g.CallID != inv.CallID ||
		g.CSeq != inv.CSeq || strings.Join(hopTexts(g.Via, -1), ", ") != strings.Join(hopTexts(inv.Via, -1), ", ") {
		c.Failf("wire-cancel", "the CANCEL is not right for\n%s\n%s", inv, g)
		return
	}
	last := inv.CSeq
	for n := r.Range(1, 3); n > 0; n-- {
		if _, g = get("BYE", dialog.NewBye(invite, in, &last)); g == nil {
			return
		}
		if dump(g.Request) != dump(ans.Contact.Uri) || dump(g.Route) != route || dump(g.From) != dump(inv.From) || dump(g.To) != dump(ans.To) || g.CallID != inv.CallID ||
			g.CSeq != last || last <= inv.CSeq || !hop(g) || dialog.AckMatch(inv, g) {
			c.Failf("wire-bye", "the BYE is not right for\n%s\n%s", raw, g)
			return
		}
	}
	c.Eval(1)
	c.Seen(fmt.Sprint("req", ans.RecordRoute.Len(), inv.Route.Len(), inv.Authorization != "", ans.Contact.Uri.Host == ip))
}

func init() {
	mon.Register(&mon.Check{
		ID: "T09",
		Rule: "Random requests are answered with the library's response builder, and random invites and answers given to its ACK, CANCEL and BYE builders; what is built is compared field by field with a model, what it was built from with its state before. " +
			"The same over real sockets: responses to received requests and the companions of a sent and answered invite, as they arrive. Reason phrases come from an independent table of the standard's. Distinct = different status, method and list lengths.",
		Assumptions: []string{"how messages name the software and which optional headers list its abilities is up to the library", "which target and route an ACK to a refusal uses is not checked"},
		Run:         checkT09,
	})
}

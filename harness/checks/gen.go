package checks

import (
	"fmt"
	"net"
	"reflect"
	"strings"
	"unicode/utf8"

	"verif/mon"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
)

const (
	alnum  = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	digits = "0123456789"
	tokenS = alnum + "-.!%*_+`'~"
	wordS  = tokenS + "()<>:\\\"/[]?{}"
)

func str(r *mon.Rand, set string, min, max int) string {
	n := r.Range(min, max)
	b := make([]byte, n)
	for i := range b {
		b[i] = set[r.IntN(len(set))]
	}
	return string(b)
}

func isToken(s string) bool {
	for i := 0; i < len(s); i++ {
		if !strings.Contains(tokenS, s[i:i+1]) {
			return false
		}
	}
	return s != ""
}

var runes = []rune("äéñßøπЖ中文かな한ﬁ€…“”🎈🜚\u00a0\u2028\u0080\u07ff\u0800\uffff\ufffd\U00010000\U0010ffff")

// word of printable, possibly non-ASCII text without whitespace.
func word(r *mon.Rand) string {
	var b strings.Builder
	for n := r.Range(1, 8); n > 0; n-- {
		if r.P(0.12) {
			b.WriteRune(runes[r.IntN(len(runes))])
		} else {
			b.WriteByte(byte(r.Range(0x21, 0x7E)))
		}
	}
	return b.String()
}

// text is a header value: words separated by spaces and tabs.
func text(r *mon.Rand) string {
	var b strings.Builder
	for n := r.Range(1, 4); n > 0; n-- {
		b.WriteString(word(r))
		if n > 1 {
			b.WriteString(r.Pick(" ", " ", " ", "  ", "\t", " \t "))
		}
	}
	return b.String()
}

func token(r *mon.Rand) string { return str(r, tokenS, 1, 10) }

func hostName(r *mon.Rand) string {
	switch r.IntN(8) {
	case 0:
		return r.Pick("localhost", "a", "pbx-1", "sip.example.test")
	case 1:
		return r.Pick("x.y.z", "1.2.3.4.in-addr.arpa", "0-0", "example.com.")
	}
	n := r.Range(1, 3)
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, str(r, "abcdefghijklmnopqrstuvwxyz0123456789", 1, 1)+str(r, "abcdefghijklmnopqrstuvwxyz0123456789-", 0, 8))
	}
	return strings.Join(p, ".")
}

func ip4(r *mon.Rand) string {
	return fmt.Sprintf("%d.%d.%d.%d", r.IntN(256), r.IntN(256), r.IntN(256), r.IntN(256))
}

func ip6(r *mon.Rand) string {
	if r.P(0.2) {
		return r.Pick("::1", "::", "fe80::1", "dead:beef::666", "2001:db8:0:0:1:2:3:4")
	}
	b := r.Bytes(16)
	if r.Bool() {
		for i := 4; i < 12; i++ {
			b[i] = 0
		}
	}
	if b[0] == 0 {
		b[0] = 0x20
	}
	return net.IP(b).String()
}

func host(r *mon.Rand) string {
	switch r.IntN(5) {
	case 0, 1:
		return ip4(r)
	case 2:
		return ip6(r)
	}
	return hostName(r)
}

func port(r *mon.Rand) uint16 {
	switch r.IntN(6) {
	case 0, 1:
		return 0
	case 2:
		return 5060
	case 3:
		return uint16([]int{1, 9, 10, 99, 5061, 32767, 32768, 65534, 65535}[r.IntN(9)])
	}
	return uint16(r.Range(1, 65535))
}

// anyText is what people put into user parts, names and parameters.
func anyText(r *mon.Rand, min, max int) string {
	switch r.IntN(5) {
	case 0:
		return str(r, alnum, min, max)
	case 1:
		return str(r, alnum+"-_.!~*'()&=+$,;?/:@%#[]<>\"\\^`{|} ", min, max)
	case 2:
		var b strings.Builder
		for n := r.Range(min, max); n > 0; n-- {
			b.WriteRune(runes[r.IntN(len(runes))])
		}
		return b.String()
	case 3:
		return string(r.Bytes(r.Range(min, max)))
	}
	return str(r, "aZ0;=?&@:/%", min, max)
}

func genURI(r *mon.Rand) *sip.URI {
	u := &sip.URI{Scheme: r.Pick("sip", "sip", "sip", "sips", "tel", "x-a+b.c1")}
	u.Host = host(r)
	if r.P(0.7) {
		u.User = anyText(r, 1, 10)
		if r.P(0.2) {
			u.Pass = anyText(r, 1, 6)
		}
	}
	u.Port = port(r)
	for n := r.IntN(4) - 1; n > 0; n-- {
		u.Param = &sip.URIParam{Name: r.Pick("transport", "lr", "isup-oli", "maddr", anyText(r, 1, 6)), Next: u.Param}
		if r.P(0.7) {
			u.Param.Value = anyText(r, 1, 6)
		}
	}
	for n := r.IntN(5) - 2; n > 0; n-- {
		u.Header = &sip.URIHeader{Name: r.Pick("subject", "priority", anyText(r, 1, 6)), Next: u.Header}
		if r.P(0.7) {
			u.Header.Value = anyText(r, 1, 6)
		}
	}
	return u
}

// plainText is any text that can be held by a quoted string.
func plainText(r *mon.Rand, min, max int) string {
	switch r.IntN(7) {
	case 0, 1:
		return str(r, tokenS, max2(min, 1), max2(max, 1))
	case 2:
		return str(r, alnum+" ", min, max)
	case 3:
		return str(r, alnum+"\"\\;,<>@=: \t", min, max)
	case 4:
		return text(r)
	case 5:
		s := str(r, alnum+"\x00\x01\x07\x1b\x7f\t ", min, max)
		return s
	}
	if r.P(0.3) {
		return str(r, alnum, 1, 3) + r.Pick("\r\n ", "\r\n\t", " \r\n  ") + str(r, alnum, 1, 3)
	}
	var b strings.Builder
	for n := r.Range(min, max); n > 0; n-- {
		b.WriteRune(runes[r.IntN(len(runes))])
	}
	return b.String()
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func genParams(r *mon.Rand, names ...string) *sip.Param {
	var p *sip.Param
	n := r.IntN(4) - 1
	if r.P(0.05) {
		n += r.Range(1, 4)
	}
	for ; n > 0; n-- {
		p = &sip.Param{Name: r.Pick("tag", "branch", "rport", "received", "q", "expires", "lr", "ttl", "maddr", "+sip.instance", token(r), token(r)), Next: p}
		if r.P(0.75) {
			p.Value = plainText(r, 1, 10)
		}
	}
	return p
}

func genAddr(r *mon.Rand) *sip.Addr {
	a := &sip.Addr{Uri: genURI(r), Param: genParams(r)}
	if r.P(0.5) {
		a.Display = plainText(r, 1, 14)
	}
	return a
}

func genAddrs(r *mon.Rand, min, max int) *sip.Addr {
	var a *sip.Addr
	for n := r.Range(min, max); n > 0; n-- {
		b := genAddr(r)
		b.Next = a
		a = b
	}
	return a
}

func genVia(r *mon.Rand, min, max int) *sip.Via {
	var v *sip.Via
	for n := r.Range(min, max); n > 0; n-- {
		w := &sip.Via{Protocol: "SIP", Version: "2.0", Transport: r.Pick("UDP", "UDP", "TCP", "TLS", "SCTP", "WS"),
			Host: host(r), Port: port(r), Param: genParams(r), Next: v}
		if r.P(0.05) {
			w.Protocol, w.Version, w.Transport = token(r), token(r), token(r)
		}
		v = w
	}
	return v
}

var (
	textFields = strings.Fields("UserAgent Accept AcceptContact AcceptEncoding AcceptLanguage AlertInfo Allow AllowEvents " +
		"AuthenticationInfo Authorization CallInfo ContentDisposition ContentEncoding ContentLanguage Date ErrorInfo Event " +
		"InReplyTo MIMEVersion Organization Priority ProxyAuthenticate ProxyAuthorization ProxyRequire ReferTo ReferredBy " +
		"ReplyTo Require RetryAfter Server Subject Supported Timestamp Unsupported WWWAuthenticate Warning")
	addrFields = strings.Fields("Route RecordRoute Contact PAssertedIdentity RemotePartyID")
	hdrName    = map[string]string{"UserAgent": "User-Agent", "AcceptContact": "Accept-Contact", "AcceptEncoding": "Accept-Encoding",
		"AcceptLanguage": "Accept-Language", "AlertInfo": "Alert-Info", "AllowEvents": "Allow-Events",
		"AuthenticationInfo": "Authentication-Info", "CallInfo": "Call-Info", "ContentDisposition": "Content-Disposition",
		"ContentEncoding": "Content-Encoding", "ContentLanguage": "Content-Language", "ErrorInfo": "Error-Info",
		"InReplyTo": "In-Reply-To", "MIMEVersion": "MIME-Version", "ProxyAuthenticate": "Proxy-Authenticate",
		"ProxyAuthorization": "Proxy-Authorization", "ProxyRequire": "Proxy-Require", "ReferTo": "Refer-To",
		"ReferredBy": "Referred-By", "ReplyTo": "Reply-To", "RetryAfter": "Retry-After", "WWWAuthenticate": "WWW-Authenticate",
		"RecordRoute": "Record-Route", "PAssertedIdentity": "P-Asserted-Identity", "RemotePartyID": "Remote-Party-ID",
		"MaxForwards": "Max-Forwards", "MinExpires": "Min-Expires", "CallID": "Call-ID"}
	compactName = map[string]string{"Contact": "m", "From": "f", "To": "t", "Via": "v", "Call-ID": "i", "Accept-Contact": "a",
		"Allow-Events": "u", "Content-Encoding": "e", "Event": "o", "Refer-To": "r", "Referred-By": "b", "Subject": "s",
		"Supported": "k", "Content-Type": "c", "Content-Length": "l"}
	methods = []string{"INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "PRACK", "SUBSCRIBE", "NOTIFY", "PUBLISH", "INFO", "REFER", "MESSAGE", "UPDATE"}
)

func headerName(field string) string {
	if n, ok := hdrName[field]; ok {
		return n
	}
	return field
}

var knownHeaders = func() map[string]bool {
	m := map[string]bool{}
	for _, f := range append(append([]string{"From", "To", "Via", "CallID", "CSeq", "MaxForwards", "MinExpires", "Expires", "Content-Type", "Content-Length"}, textFields...), addrFields...) {
		m[strings.ToLower(headerName(f))] = true
	}
	for _, c := range compactName {
		m[c] = true
	}
	return m
}()

func xname(r *mon.Rand) string {
	for {
		var n string
		switch r.IntN(4) {
		case 0: // almost a known header
			f := headerName(textFields[r.IntN(len(textFields))])
			if r.Bool() {
				n = f[:r.Range(1, len(f))]
			} else {
				n = f + str(r, tokenS, 1, 3)
			}
		case 1:
			n = r.Pick("Via", "To", "From", "Contact", "Route", "CSeq", "Call-ID", "Content-Length", "Expires", "Max-Forwards", "l", "v", "t") + str(r, tokenS, 1, 2)
		case 2:
			n = "X-" + token(r)
		default:
			n = token(r)
		}
		if !knownHeaders[strings.ToLower(n)] {
			return n
		}
	}
}

func callID(r *mon.Rand) string {
	s := str(r, wordS, 1, 12)
	if r.Bool() {
		s += "@" + str(r, wordS, 1, 12)
	}
	return s
}

const reasonS = alnum + "-_.!~*'();/?:@&=+$, \t"

func phrase(r *mon.Rand) string {
	var b strings.Builder
	b.WriteString(str(r, alnum, r.IntN(2), 3))
	for n := r.IntN(12); n > 0; n-- {
		switch {
		case b.Len() == 0:
			b.WriteString(r.Pick("é", "한", "🎈", "%", "\"", "\x00", "\n", "'", "~", "?", "_", "$"))
		case r.P(0.1):
			b.WriteRune(runes[r.IntN(len(runes))])
		case r.P(0.1):
			b.WriteString(str(r, "%\"<>[]{}|\\^`#\x00\r\n\x7f", 1, 1))
		default:
			b.WriteString(str(r, reasonS, 1, 1))
		}
	}
	b.WriteString(str(r, alnum, 1, 1))
	return b.String()
}

func genMsg(r *mon.Rand) *sip.Msg {
	m := &sip.Msg{VersionMajor: 2}
	if r.P(0.03) {
		m.VersionMajor, m.VersionMinor = uint8(r.Range(1, 255)), uint8(r.IntN(256))
	}
	if r.P(0.6) {
		m.Method = methods[r.IntN(len(methods))]
		if r.P(0.1) {
			m.Method = token(r)
			if r.Bool() { // almost a response
				m.Method = r.Pick("S", "SI", "SIP") + str(r, tokenS, 0, 2)
			}
		}
		m.Request = genURI(r)
		m.MaxForwards = r.Range(1, 255)
		m.CSeqMethod = m.Method
	} else {
		m.Status = r.Range(100, 699)
		if r.P(0.05) {
			m.Status = r.Range(700, 999)
		}
		m.Phrase = phrase(r)
		m.CSeqMethod = methods[r.IntN(len(methods))]
	}
	m.From, m.To = genAddr(r), genAddr(r)
	m.Via = genVia(r, 1, 4)
	m.CallID = callID(r)
	m.CSeq = r.IntN(1 << r.Range(1, 31))
	v := reflect.ValueOf(m).Elem()
	prob := []float64{0, 0.1, 0.1, 0.3, 1}[r.IntN(5)]
	for _, f := range textFields {
		if r.P(prob) {
			v.FieldByName(f).SetString(text(r))
		}
	}
	for _, f := range addrFields {
		if r.P(max(prob, 0.2)) {
			v.FieldByName(f).Set(reflect.ValueOf(genAddrs(r, 1, 3)))
		}
	}
	if r.P(prob) || m.CSeqMethod == "REGISTER" {
		m.Expires = r.IntN(100000)
	}
	if r.P(prob) {
		m.MinExpires = r.IntN(100000)
	}
	for n := r.IntN(4); n > 0; n-- {
		m.XHeader = &sip.XHeader{Name: xname(r), Value: []byte(text(r)), Next: m.XHeader}
	}
	switch r.IntN(4) {
	case 0:
		d := r.Bytes(r.Range(1, 60))
		if r.Bool() {
			d = []byte(text(r) + r.Pick("", "\r\n", "\r\n\r\n", "\n", "\x00"))
		}
		t := token(r) + "/" + token(r)
		if strings.EqualFold(t, sdp.ContentType) {
			t = "a/b"
		}
		if r.P(0.1) {
			t = ""
		}
		m.Payload = &sip.MiscPayload{T: t, D: d}
	case 1:
		m.Payload = genSDP(r)
	}
	return m
}

// bigText is a long piece of header text.
func bigText(r *mon.Rand, size int) string {
	var b strings.Builder
	for b.Len() < size {
		b.WriteString(text(r))
		b.WriteString(" ")
	}
	b.WriteString(word(r))
	return b.String()
}

// stretch makes one part of the message, or several, far longer than usual:
// nothing sets a limit short of what memory can hold.
func stretch(r *mon.Rand, m *sip.Msg) *sip.Msg {
	size := func() int { return []int{100, 129, 200, 257, 300, 520, 1030, 2050, 4100}[r.IntN(9)] + r.IntN(20) }
	addr := func() *sip.Addr {
		as := []*sip.Addr{m.From, m.To, m.Contact, m.Route, m.RecordRoute, m.PAssertedIdentity, m.RemotePartyID}
		for {
			if a := as[r.IntN(len(as))]; a != nil {
				return a
			}
		}
	}
	for n := r.Range(1, 3); n > 0; n-- {
		switch r.IntN(16) {
		case 0:
			if m.Status != 0 {
				for w := size(); len(m.Phrase) < w; {
					m.Phrase += " " + phrase(r)
				}
				m.Phrase = strings.TrimLeft(m.Phrase, " ")
			} else {
				m.Method = str(r, tokenS, 1, size())
				m.CSeqMethod = m.Method
			}
		case 1:
			m.CallID = str(r, wordS, 1, size()) + r.Pick("", "@"+str(r, wordS, 1, size()))
		case 2:
			f := textFields[r.IntN(len(textFields))]
			reflect.ValueOf(m).Elem().FieldByName(f).SetString(bigText(r, size()))
		case 3:
			addr().Display = plainText(r, 100, size())
		case 4:
			a := addr()
			a.Param = &sip.Param{Name: "tag", Value: str(r, tokenS, 1, size()), Next: a.Param}
		case 5:
			a := addr()
			a.Param = &sip.Param{Name: str(r, tokenS, 1, size()), Value: plainText(r, 1, size()), Next: a.Param}
		case 6:
			addr().Uri.User = anyText(r, 1, size())
		case 7:
			u := addr().Uri
			u.Param = &sip.URIParam{Name: anyText(r, 1, size()), Value: anyText(r, 0, size()), Next: u.Param}
			u.Header = &sip.URIHeader{Name: anyText(r, 1, size()), Value: anyText(r, 0, size()), Next: u.Header}
		case 8:
			u := addr().Uri
			for k := r.Range(8, 70); k > 0; k-- {
				u.Param = &sip.URIParam{Name: anyText(r, 1, 4), Value: anyText(r, 0, 4), Next: u.Param}
			}
		case 9:
			a := addr()
			for k := r.Range(8, 70); k > 0; k-- {
				a.Param = &sip.Param{Name: token(r), Value: plainText(r, 0, 6), Next: a.Param}
			}
		case 10:
			m.Via.Last().Next = genVia(r, 8, 70)
		case 11:
			f := addrFields[r.IntN(len(addrFields))]
			reflect.ValueOf(m).Elem().FieldByName(f).Set(reflect.ValueOf(genAddrs(r, 8, 70)))
		case 12:
			for k := r.Range(8, 70); k > 0; k-- {
				m.XHeader = &sip.XHeader{Name: xname(r), Value: []byte(text(r)), Next: m.XHeader}
			}
		case 13:
			m.XHeader = &sip.XHeader{Name: "X-" + str(r, tokenS, 1, size()), Value: []byte(bigText(r, size())), Next: m.XHeader}
		case 14:
			m.CSeq, m.Expires, m.MinExpires = 1<<31-1-r.IntN(3), 1<<31-1-r.IntN(3), 1<<31-1-r.IntN(3)
			if m.Status == 0 {
				m.MaxForwards = r.Range(1, 1<<r.Range(1, 31)-1)
			}
		case 15:
			m.Payload = &sip.MiscPayload{T: "a/" + str(r, tokenS, 1, 200), D: r.Bytes(r.Range(1, 1<<r.Range(1, 17)))}
		}
	}
	return m
}

// genAnyMsg is genMsg, at times stretched.
func genAnyMsg(r *mon.Rand) *sip.Msg {
	m := genMsg(r)
	if r.P(0.12) {
		stretch(r, m)
	}
	return m
}

func genCodec(r *mon.Rand, pt uint8) sdp.Codec {
	c := sdp.Codec{PT: pt, Name: str(r, alnum+"-_.", 1, 10), Rate: []int{8000, 16000, 48000, 90000, 1, 44100}[r.IntN(6)]}
	if r.P(0.3) {
		c.Param = str(r, alnum, 1, 3)
	}
	if r.P(0.4) {
		c.Fmtp = r.Pick("0-16", "minptime=10; useinbandfec=1", str(r, alnum+"=;, -/:", 1, 20))
	}
	if r.P(0.03) {
		c.Name, c.Fmtp = str(r, alnum+"-_.", 1, 300), str(r, alnum+"=;, -/:", 1, 2000)
		c.Rate = r.Range(1, 1<<31-1)
	}
	return c
}

func genMedia(r *mon.Rand, used map[uint8]bool) *sdp.Media {
	m := &sdp.Media{Proto: r.Pick("RTP/AVP", "RTP/SAVP", "UDP/TLS/RTP/SAVPF", "TCP", "udptl"), Port: uint16(r.IntN(65536))}
	n := r.Range(1, 5)
	if r.P(0.05) {
		n = r.Range(6, 80)
	}
	if r.P(0.05) {
		m.Port = 0 // the stream is refused
	}
	for ; n > 0; n-- {
		pt := uint8(r.IntN(128))
		if r.P(0.1) {
			pt = uint8(r.IntN(256))
		}
		if used[pt] {
			continue
		}
		used[pt] = true
		if c, ok := sdp.StandardCodecs[pt]; ok && r.Bool() {
			m.Codecs = append(m.Codecs, c)
		} else {
			m.Codecs = append(m.Codecs, genCodec(r, pt))
		}
	}
	if m.Codecs == nil {
		for pt := 0; pt < 256; pt++ {
			if !used[uint8(pt)] {
				used[uint8(pt)] = true
				m.Codecs = append(m.Codecs, genCodec(r, uint8(pt)))
				break
			}
		}
	}
	return m
}

func line(r *mon.Rand, max int) string {
	var b strings.Builder
	for n := r.Range(1, max); n > 0; n-- {
		if r.P(0.1) {
			b.WriteRune(runes[r.IntN(len(runes))])
		} else {
			b.WriteByte(byte(r.Range(0x20, 0x7E)))
		}
	}
	return b.String()
}

func ipAny(r *mon.Rand) string {
	if r.P(0.4) {
		return ip6(r)
	}
	return ip4(r)
}

// genSDP makes a complete description.
func genSDP(r *mon.Rand) *sdp.SDP {
	s := &sdp.SDP{Addr: ipAny(r), Session: line(r, 12), Time: fmt.Sprintf("%d %d", r.IntN(1<<30), r.IntN(1<<30))}
	s.Origin = sdp.Origin{User: str(r, alnum+"-_.", 1, 6), ID: str(r, digits, 1, 12), Version: str(r, digits, 1, 12), Addr: ipAny(r)}
	used := map[uint8]bool{}
	k := r.IntN(4)
	if k != 1 {
		s.Audio = genMedia(r, used)
	}
	if k == 1 || k == 2 {
		s.Video = genMedia(r, used)
	}
	if r.P(0.6) {
		s.Ptime = []int{10, 20, 30, r.Range(1, 1000), r.Range(1, 1000)}[r.IntN(5)]
	}
	switch r.IntN(4) {
	case 0:
		s.SendOnly = true
	case 1:
		s.RecvOnly = true
	}
	for n := r.IntN(4); n > 0; n-- {
		a := [2]string{attrName(r), ""}
		if r.Bool() {
			a[1] = line(r, 12)
		}
		s.Attrs = append(s.Attrs, a)
	}
	if r.P(0.04) {
		for n := r.Range(10, 200); n > 0; n-- {
			s.Attrs = append(s.Attrs, [2]string{attrName(r), line(r, 12)})
		}
		s.Attrs = append(s.Attrs, [2]string{"candidate", line(r, 3000)})
		s.Session = line(r, 1000)
		s.Ptime = r.Range(1, 1<<31-1)
	}
	for n := r.IntN(3); n > 0; n-- {
		s.Other = append(s.Other, [2]string{str(r, "bekiprzuwxyBEZ", 1, 1), line(r, 12)})
	}
	return s
}

// attrName is an attribute that is not one of those with a field of its own.
func attrName(r *mon.Rand) string {
	for {
		n := r.Pick("silenceSupp", "candidate", "mid", "rtcp", "ice-ufrag", "x", "inactive2", str(r, alnum+"-_.", 1, 10))
		if r.P(0.35) {
			// Close to a known one, which makes it no less unknown.
			k := r.Pick("rtpmap", "fmtp", "ptime", "sendrecv", "sendonly", "recvonly")
			n = r.Pick(k+str(r, alnum+"-_.", 1, 3), str(r, alnum+"-_.", 1, 3)+k, k[:len(k)-1], k[1:], strings.ToUpper(k), strings.ToUpper(k[:1])+k[1:])
		}
		switch n {
		case "rtpmap", "fmtp", "ptime", "sendrecv", "sendonly", "recvonly", "inactive":
			continue
		}
		return n
	}
}

func validUTF8(s string) bool { return utf8.ValidString(s) }

// canonMsg is what parsing must give for a rendered message: defaults made
// explicit.
func sameMsg(want, got *sip.Msg) (bool, string) {
	w, g := dump(want), dump(got)
	if w == g {
		return true, ""
	}
	return false, diff(w, g)
}

package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"verif/mon"
	"verif/wire"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
)

// shape describes which features a message has, for counting distinct
// non-trivial cases.
func shape(m *sip.Msg) string {
	var b strings.Builder
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		if !v.Field(i).IsZero() {
			fmt.Fprintf(&b, "%d,", i)
		}
	}
	for _, a := range []*sip.Addr{m.From, m.To, m.Contact, m.Route, m.RecordRoute, m.PAssertedIdentity, m.RemotePartyID} {
		fmt.Fprintf(&b, "/%d", a.Len())
		if a != nil {
			fmt.Fprintf(&b, "%v%v%v", a.Display != "", a.Param != nil, a.Uri.User != "")
		}
	}
	for w := m.Via; w != nil; w = w.Next {
		b.WriteByte('v')
	}
	return b.String()
}

// ---------------------------------------------------------------- S01

// exercise does everything an accepted message must withstand.
func exercise(m *sip.Msg) {
	_ = m.String()
	cp := m.Copy()
	_ = cp.String()
	for _, a := range []*sip.Addr{m.From, m.To, m.Contact, m.Route, m.RecordRoute, m.PAssertedIdentity, m.RemotePartyID} {
		_ = a.Len()
		_ = a.Last()
		_ = a.Reversed().String()
		_ = a.Copy().CompareHostPort(a)
	}
	_ = m.Via.Copy().Last().CompareHostPort(m.Via)
	_ = m.Via.Last().CompareBranch(m.Via)
	if m.Via != nil {
		_ = m.Via.Detach()
	}
	if m.Request != nil {
		_ = m.Request.String()
		_ = m.Request.GetPort()
	}
	_ = m.XHeader.Get("x")
	_ = m.IsResponse()
}

func checkTotal(c *mon.C, in []byte, kind string) {
	if in == nil {
		in = []byte{} // a nil slice means "no message" and is documented to give nil
	}
	c.Note(fmt.Sprintf("%s %.2000q", kind, in))
	keep := bytes.Clone(in)
	t0 := time.Now()
	m, err := sip.ParseMsg(in)
	el := time.Since(t0)
	if !bytes.Equal(keep, in) {
		c.Failf("input-modified", "the parser modified its input %q", keep)
	}
	if el > 10*time.Second {
		c.Failf("slow", "parsing %d bytes took %v", len(in), el)
	}
	switch {
	case m == nil && err == nil:
		c.Failf("neither", "ParseMsg(%q) returned neither message nor error", in)
	case m != nil && err != nil:
		c.Failf("both", "ParseMsg(%q) returned both a message and %v", in, err)
	case err != nil:
		if err.Error() == "" {
			c.Failf("empty-error", "ParseMsg(%q): empty error", in)
		}
		c.Count("messages refused", 1)
		c.Seen("err" + kind + fmt.Sprintf("%T", err))
	default:
		c.Count("messages accepted", 1)
		if m.Status == 0 && (m.Method == "" || m.Request == nil) || m.Status != 0 && m.Status < 100 {
			c.Failf("unusable", "ParseMsg(%q) accepted a message that is neither request nor response: status %d method %q", in, m.Status, m.Method)
		}
		exercise(m)
		c.Seen(kind + shape(m))
	}
	c.Eval(1)
}

func checkTotalURI(c *mon.C, in []byte) {
	if in == nil {
		in = []byte{} // a nil slice means "no message" and is documented to give nil
	}
	c.Note(fmt.Sprintf("uri %.2000q", in))
	keep := bytes.Clone(in)
	u, err := sip.ParseURI(in)
	if !bytes.Equal(keep, in) {
		c.Failf("input-modified", "the URI parser modified its input %q", keep)
	}
	switch {
	case (u == nil) == (err == nil):
		c.Failf("uri-neither-both", "ParseURI(%q) returned %v, %v", in, u, err)
	case err != nil:
		_ = err.Error()
		c.Count("uris refused", 1)
	default:
		c.Count("uris accepted", 1)
		_ = u.String()
		_ = u.Copy().CompareHostPort(u)
		for p := u.Param; p != nil; p = p.Next {
			_ = u.Param.Get(p.Name)
		}
		_ = u.Header.Get("x")
	}
	c.Eval(1)
}

var fragments = []string{"SIP/2.0 ", "SIP/2.0", "INVITE ", "sip:", "sips:a@b", "<", ">", "\"", "\\", ";", ",", "=", ":", "@", "?", "&", "/", "%", "%4", "%00", "%zz",
	"\r\n", "\r\n ", "\r\n\t", "\r\n\r\n", "\n", "\r", " ", "\t", "Via: ", "v:", "Via: SIP/2.0/UDP ", "From:", "f:", "To: ", "t:", "m:", "Contact: ", "Route: ", "Record-Route:",
	"CSeq: ", "CSeq: 1 INVITE", "Call-ID: ", "i:", "Content-Length: ", "l:", "Content-Type: ", "c: application/sdp", "c:", "Max-Forwards: ", "Expires: ", "Subject: ",
	"s:", "P-Asserted-Identity:", "Remote-Party-ID: ", "X: ", "200 OK", "200", "000 ", "1", "0", "65536", "99999999999999999999", "-1", "[", "]", "[::1]", "::1", "1.2.3.4", "a", "branch=z9hG4bK", "tag", "*",
	"\x00", "\xff", "\xc3", "\xa4", "é", "\xf0\x9f\x8e\x88", "v=0\r\n", "o=a 1 1 IN IP4 1.2.3.4\r\n", "m=audio 1 RTP/AVP 0\r\n", "c=IN IP4 1.2.3.4\r\n"}

// mutate damages a message.
func mutate(r *mon.Rand, in []byte, other []byte) []byte {
	b := bytes.Clone(in)
	for n := r.Range(1, 5); n > 0; n-- {
		if len(b) == 0 {
			return []byte{byte(r.Uint64())}
		}
		i := r.IntN(len(b))
		switch r.IntN(9) {
		case 0:
			b[i] = byte(r.Uint64())
		case 1:
			b[i] ^= 1 << r.IntN(8)
		case 2:
			j := min(len(b), i+r.Range(1, 20))
			b = append(b[:i:i], b[j:]...)
		case 3:
			f := fragments[r.IntN(len(fragments))]
			b = append(b[:i:i], append([]byte(f), b[i:]...)...)
		case 4:
			j := min(len(b), i+r.Range(1, 60))
			b = append(b[:j:j], append(bytes.Clone(b[i:j]), b[j:]...)...)
		case 5:
			b = b[:i]
		case 6:
			if len(other) > 0 {
				j := r.IntN(len(other))
				b = append(b[:i:i], other[j:]...)
			}
		case 7: // swap lines
			l := bytes.Split(b, []byte("\r\n"))
			p, q := r.IntN(len(l)), r.IntN(len(l))
			l[p], l[q] = l[q], l[p]
			b = bytes.Join(l, []byte("\r\n"))
		case 8: // drop a line
			l := bytes.Split(b, []byte("\r\n"))
			p := r.IntN(len(l))
			l = append(l[:p:p], l[p+1:]...)
			b = bytes.Join(l, []byte("\r\n"))
		}
	}
	return b
}

// repetitive makes a large input from a small period.
func repetitive(r *mon.Rand, size int) []byte {
	pre := r.Pick("", "SIP/2.0 200 OK\r\n", "INVITE sip:a SIP/2.0\r\n", "SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP a", "SIP/2.0 200 OK\r\nm: <sip:a>", "SIP/2.0 200 OK\r\nm: \"", "SIP/2.0 200 OK\r\nSubject: ", "SIP/2.0 ", "INVITE sip:", "SIP/2.0 200 OK\r\nm: sip:a;b", "SIP/2.0 200 OK\r\nc: a/b")
	unit := r.Pick("m:<sip:a>\r\n", "v:SIP/2.0/UDP a\r\n", "X:y\r\n", ";p=q", ",<sip:a>", ", SIP/2.0/UDP a", "\r\n ", " ", "a", "\\\\", "%61", ";", "1", "<", "\"\"", "a ", ";a=\"b\"", "Route:sip:a,sip:b\r\n", "[", "a:", "/")
	var b bytes.Buffer
	b.WriteString(pre)
	for b.Len() < size {
		b.WriteString(unit)
	}
	b.WriteString(r.Pick("", "\r\n", "\r\n\r\n", ">\r\n\r\n", "\"\r\n\r\n"))
	return b.Bytes()
}

func init() {
	mon.Register(&mon.Check{
		ID: "S01",
		Rule: "Inputs: random bytes, random concatenations of SIP fragments, valid messages in random spellings damaged by 1-5 mutations (bit flips, cuts, splices, line swaps), " +
			"up to 64 KB of repeated units, and the same for URIs. Every accepted message is rendered, copied and walked; every error rendered. Distinct = different combination of input kind and accepted message shape or error type.",
		Assumptions: []string{"the watchdog limit of 30 s per case is far above any honest parse of 64 KB"},
		Run: func(x *mon.Ctx) {
			x.Run("bytes", x.N(4000, 60000), 0, func(c *mon.C) {
				for k := 0; k < 20; k++ {
					checkTotal(c, c.R.Bytes(c.R.Range(0, 40)), "bytes")
					checkTotal(c, append([]byte("SIP/2.0 200 OK\r\n"), c.R.Bytes(c.R.Range(0, 60))...), "bytes")
					checkTotalURI(c, c.R.Bytes(c.R.Range(0, 20)))
					checkTotalURI(c, append([]byte(c.R.Pick("sip:", "sip:a@", "tel:", "sip:[")), c.R.Bytes(c.R.Range(0, 20))...))
				}
			})
			x.Run("fragments", x.N(6000, 200000), 0, func(c *mon.C) {
				for k := 0; k < 20; k++ {
					var b bytes.Buffer
					if c.R.P(0.7) {
						b.WriteString(c.R.Pick("SIP/2.0 200 OK\r\n", "INVITE sip:a SIP/2.0\r\n"))
					}
					for n := c.R.Range(1, 25); n > 0; n-- {
						b.WriteString(fragments[c.R.IntN(len(fragments))])
					}
					if c.R.P(0.5) {
						b.WriteString("\r\n\r\n")
					}
					checkTotal(c, b.Bytes(), "fragments")
					b.Reset()
					b.WriteString(c.R.Pick("sip:", "", "sip:a@"))
					for n := c.R.Range(1, 10); n > 0; n-- {
						b.WriteString(fragments[c.R.IntN(len(fragments))])
					}
					checkTotalURI(c, b.Bytes())
				}
			})
			x.Run("mutants", x.N(8000, 300000), 0, func(c *mon.C) {
				s := &speller{r: c.R, wild: 1}
				a, b := s.msg(genAnyMsg(c.R)), s.msg(genAnyMsg(c.R))
				checkTotal(c, a, "valid")
				for k := 0; k < 12; k++ {
					checkTotal(c, mutate(c.R, a, b), "mutant")
				}
				u := []byte(s.uri(genURI(c.R)))
				checkTotalURI(c, u)
				for k := 0; k < 5; k++ {
					checkTotalURI(c, mutate(c.R, u, b))
				}
				c.Sample("mutant", "%.400q", mutate(c.R, a, b))
			})
			x.Run("repetitive", x.N(400, 6000), 0, func(c *mon.C) {
				in := repetitive(c.R, c.R.Range(100, 65000))
				checkTotal(c, in, "repetitive")
				checkTotalURI(c, in)
			})
		},
	})

	// ---------------------------------------------------------------- S02
	mon.Register(&mon.Check{
		ID: "S02",
		Rule: "A random well-formed message (any subset of the ~50 headers, 1-4 Vias, address lists, extension headers whose names resemble known ones, binary/SDP/no body) is written by an independent speller in several random legal spellings " +
			"(name case, compact names, header order, whitespace, folding, quoting, escaping, comma versus repeated headers) and parsed; every field must equal the intended one. Distinct = different message shape.",
		Run: func(x *mon.Ctx) {
			x.Run("spellings", x.N(8000, 150000), 0, func(c *mon.C) {
				m := genAnyMsg(c.R)
				want := dump(m)
				for k := 0; k < 4; k++ {
					s := &speller{r: c.R, wild: []float64{0, 0.5, 1, 2}[k]}
					in := s.msg(m)
					c.Eval(1)
					got, err := sip.ParseMsg(in)
					if err != nil {
						c.Failf("refused", "a well-formed message was refused: %v\n%q", err, in)
						return
					}
					if g := dump(got); g != want {
						c.Failf("wrong-content", "fields differ from what the message says:\n%s\nmessage: %q", diff(want, g), in)
						return
					}
					c.Count("fields compared", int64(strings.Count(want, "\n")))
				}
				c.Seen(shape(m))
				c.Sample("spelling", "%.700q", (&speller{r: c.R, wild: 1}).msg(m))
			})
			// One header at a time: nothing else may change.
			x.Run("isolation", x.N(2000, 20000), 0, func(c *mon.C) {
				base := &sip.Msg{VersionMajor: 2, Status: 200, Phrase: "OK", From: genAddr(c.R), To: genAddr(c.R), Via: genVia(c.R, 1, 1), CallID: "x", CSeq: 7, CSeqMethod: "INFO",
					MaxForwards: 31, Expires: 17, MinExpires: 19}
				v := reflect.ValueOf(base).Elem()
				fs := append(append([]string{}, textFields...), addrFields...)
				f := fs[c.ID.Index%len(fs)]
				if v.FieldByName(f).Kind() == reflect.String {
					v.FieldByName(f).SetString(text(c.R))
				} else {
					v.FieldByName(f).Set(reflect.ValueOf(genAddrs(c.R, 1, 2)))
				}
				s := &speller{r: c.R, wild: 1.5}
				in := s.msg(base)
				got, err := sip.ParseMsg(in)
				if err != nil {
					c.Failf("refused", "a well-formed message was refused: %v\n%q", err, in)
					return
				}
				if ok, d := sameMsg(base, got); !ok {
					c.Failf("wrong-content", "header %s changed other fields:\n%s\nmessage: %q", headerName(f), d, in)
				}
				c.Seen("iso" + f)
			})
		},
	})

	// ---------------------------------------------------------------- S03
	mon.Register(&mon.Check{
		ID: "S03",
		Rule: "Random complete messages as values, rendered and parsed back; all fields compared recursively, the rendering also read by an independent reader, and the re-rendering compared byte for byte. " +
			"Distinct = different set of present fields, list lengths and payload kind.",
		Run: func(x *mon.Ctx) {
			x.Run("roundtrip", x.N(25000, 500000), 0, func(c *mon.C) {
				m := genAnyMsg(c.R)
				want := dump(m)
				out := m.String()
				if dump(m) != want {
					c.Failf("render-modifies", "rendering changed the message:\n%s", diff(want, dump(m)))
				}
				got, err := sip.ParseMsg([]byte(out))
				if err != nil {
					c.Failf("unparseable", "rendered message is refused: %v\n%q\n%s", err, out, want)
					return
				}
				if g := dump(got); g != want {
					c.Failf("lossy", "fields lost in the round trip:\n%s\nrendered: %q", diff(want, g), out)
					return
				}
				if again := got.String(); again != out {
					c.Failf("unstable", "second rendering differs\n%q\n%q", out, again)
				}
				if _, err := wire.Parse([]byte(out)); err != nil {
					c.Failf("malformed", "rendered message is malformed: %v\n%q", err, out)
				}
				c.Seen(shape(m))
				c.Count("bytes rendered", int64(len(out)))
				c.Sample("message", "%.700q", out)
			})
			// Defaults: fields left zero get their documented default and
			// nothing else changes.
			x.Run("defaults", x.N(3000, 30000), 0, func(c *mon.C) {
				m := genAnyMsg(c.R)
				w := m.Copy()
				if m.Status == 0 {
					if c.R.Bool() && m.CSeqMethod == m.Method {
						m.Method, m.CSeqMethod, w.Method, w.CSeqMethod = "", "INVITE", "INVITE", "INVITE"
					}
					if c.R.Bool() {
						m.MaxForwards, w.MaxForwards = 0, 70
					}
				} else if c.R.Bool() {
					m.Status = []int{100, 180, 200, 302, 404, 486, 503, 600}[c.R.IntN(8)]
					w.Status = m.Status
					m.Phrase, w.Phrase = "", sip.Phrase(m.Status)
				}
				m.VersionMajor, m.VersionMinor, w.VersionMajor, w.VersionMinor = 0, 0, 2, 0
				for v, u := m.Via, w.Via; v != nil; v, u = v.Next, u.Next {
					if c.R.Bool() {
						v.Protocol, u.Protocol = "", "SIP"
					}
					if c.R.Bool() {
						v.Version, u.Version = "", "2.0"
					}
					if c.R.Bool() {
						v.Transport, u.Transport = "", "UDP"
					}
				}
				if c.R.Bool() {
					m.From.Uri.Scheme, w.From.Uri.Scheme = "", "sip"
				}
				out := m.String()
				got, err := sip.ParseMsg([]byte(out))
				if err != nil {
					c.Failf("unparseable", "rendered message is refused: %v\n%q", err, out)
					return
				}
				w.Payload, w.XHeader = m.Payload, m.XHeader
				if ok, d := sameMsg(w, got); !ok {
					c.Failf("lossy", "fields lost in the round trip with defaults:\n%s\nrendered: %q", d, out)
				}
				c.Seen("d" + shape(m))
			})
		},
	})

	// ---------------------------------------------------------------- S04
	mon.Register(&mon.Check{
		ID: "S04",
		Rule: "Display names, parameter names and values drawn from hostile alphabets (quotes, backslashes, separators, CR/LF combinations, control and invalid UTF-8 bytes, valid UTF-8 of every length) are placed in messages with neighbouring headers and parameters; " +
			"after render and parse the text must equal its longest representable prefix and everything else must be untouched. Distinct = different class of text and position.",
		Run: func(x *mon.Ctx) {
			x.Run("inject", x.N(25000, 500000), 0, injectCase)
			// every single byte and every pair from a nasty set, in every position
			nasty := "\r\n \t\"\\;,<>=:@%a\x00\x7f\x80\xc3\xa9\xff"
			n := 256 + len(nasty)*len(nasty)*len(nasty)
			x.Run("exhaustive", n, 0, func(c *mon.C) {
				i := c.ID.Index
				var s string
				if i < 256 {
					s = string([]byte{byte(i)})
				} else {
					i -= 256
					l := len(nasty)
					s = string([]byte{nasty[i%l], nasty[i/l%l], nasty[i/l/l]})
				}
				for pos := 0; pos < 4; pos++ {
					inject(c, []string{s, "x" + s + "y"}[pos&1], pos)
				}
			})
		},
	})

	// ---------------------------------------------------------------- S05
	mon.Register(&mon.Check{
		ID: "S05",
		Rule: "URI values with arbitrary bytes in user, password, parameters and headers over names, IPv4 and IPv6 hosts: render, parse, compare; the same values written by the independent speller with random case and escaping; every byte value in every component; " +
			"host/port comparison against an independent rule on pairs differing in any subset of host, port and scheme. Distinct = different rendered URI.",
		Run: func(x *mon.Ctx) {
			x.Run("roundtrip", x.N(100000, 2000000), 0, func(c *mon.C) {
				u := genURI(c.R)
				if c.R.P(0.03) { // however long it is
					n := 1 << c.R.Range(5, 12)
					switch c.R.IntN(4) {
					case 0:
						u.User = anyText(c.R, 1, n)
					case 1:
						u.User, u.Pass = "u", anyText(c.R, 1, n)
					case 2:
						u.Param = &sip.URIParam{Name: anyText(c.R, 1, n), Value: anyText(c.R, 0, n), Next: u.Param}
					case 3:
						u.Header = &sip.URIHeader{Name: anyText(c.R, 1, n), Value: anyText(c.R, 0, n), Next: u.Header}
					}
				}
				uriCase(c, u)
			})
			x.Run("bytes", 256*6, 0, func(c *mon.C) {
				b := string([]byte{byte(c.ID.Index % 256)})
				u := &sip.URI{Scheme: "sip", User: "u", Host: "h"}
				switch c.ID.Index / 256 {
				case 0:
					u.User = b
				case 1:
					u.Pass = b
				case 2:
					u.Param = &sip.URIParam{Name: b}
				case 3:
					u.Param = &sip.URIParam{Name: "n", Value: b}
				case 4:
					u.Header = &sip.URIHeader{Name: b}
				case 5:
					u.Header = &sip.URIHeader{Name: "n", Value: b}
				}
				uriCase(c, u)
			})
			x.Run("compare", x.N(20000, 200000), 0, func(c *mon.C) {
				hosts := []string{"a", "b", "1.2.3.4", "::1", "::2", "a.b"}
				ports := []uint16{0, 5060, 5061, 1, 65535}
				mk := func() *sip.URI {
					// What else is in the URI makes no difference.
					u := genURI(c.R)
					u.Scheme, u.Host, u.Port = c.R.Pick("sip", "sips", "tel", ""), hosts[c.R.IntN(len(hosts))], ports[c.R.IntN(len(ports))]
					return u
				}
				eff := func(u *sip.URI) int {
					if u.Port != 0 {
						return int(u.Port)
					}
					if u.Scheme == "sips" {
						return 5061
					}
					return 5060
				}
				a, b := mk(), mk()
				if c.R.P(0.6) {
					b.Host = a.Host
				}
				want := a.Host == b.Host && eff(a) == eff(b)
				if a.CompareHostPort(b) != want || b.CompareHostPort(a) != want {
					c.Failf("compare", "%v and %v: same endpoint should be %v", a, b, want)
				}
				if int(a.GetPort()) != eff(a) {
					c.Failf("port", "%v: port %d, want %d", a, a.GetPort(), eff(a))
				}
				x, y := &sip.Addr{Uri: a}, &sip.Addr{Uri: b}
				if x.CompareHostPort(y) != want {
					c.Failf("compare", "addresses %v and %v: same endpoint should be %v", x, y, want)
				}
				// What isn't there is nowhere.
				var nu *sip.URI
				var na *sip.Addr
				var nv *sip.Via
				v := &sip.Via{Host: a.Host, Port: a.Port}
				if a.CompareHostPort(nil) || nu.CompareHostPort(a) || nu.CompareHostPort(nil) || x.CompareHostPort(nil) || na.CompareHostPort(x) || na.CompareHostPort(nil) ||
					v.CompareHostPort(nil) || nv.CompareHostPort(v) || nv.CompareHostPort(nil) {
					c.Failf("compare-none", "%v is at the same endpoint as one that is absent", a)
				}
				c.Seen(fmt.Sprint("cmp", a, b))
			})
			x.Run("reject", x.N(20000, 200000), 0, func(c *mon.C) {
				// A byte that is illegal in the component, put there raw.
				r := c.R
				bad := "\x00\x01\x1f \t\r\n\"<>\\^`{|}\x7f\x80\xff"
				b := bad[r.IntN(len(bad))]
				var in string
				switch r.IntN(5) {
				case 0:
					in = "sip:us" + string([]byte{b}) + "er@host"
				case 1:
					in = "sip:user@ho" + string([]byte{b}) + "st"
				case 2:
					in = "sip:user@host;p" + string([]byte{b})
				case 3:
					in = "sip:user@host?h=" + string([]byte{b})
				case 4:
					in = r.Pick("sip:user@host;p=%4", "sip:user@host;p=%g0", "sip:%zz@host", "sip:user@", "sip:", ":", "sip", "user@host", "sip:user@host:", "sip:user@host:a", "sip:@host", "sip:u@h@i", "1sip:h", "sip:[::1", "sip:h;", "sip:h?", "sip:h;=x", "sip:h?=x", "sip:[]")
				}
				if u, err := sip.ParseURI([]byte(in)); err == nil {
					c.Failf("accepted", "malformed URI %q was accepted as %q", in, u)
				}
				c.Seen("rej" + in)
			})
		},
	})

	// ---------------------------------------------------------------- S06
	mon.Register(&mon.Check{
		ID: "S06",
		Rule: "Random messages with binary or SDP bodies, rendered by gosip and by the independent speller; every strict prefix is parsed and must be refused; wrong length declarations of every kind must be refused; accepted bodies compared byte for byte; " +
			"the declared length of every rendering compared with the body actually present. Distinct = different message (by content) whose prefixes were all tried.",
		Run: func(x *mon.Ctx) {
			x.Run("prefixes", x.N(600, 12000), 0, func(c *mon.C) {
				m := genMsg(c.R)
				if m.Payload == nil && c.R.P(0.7) {
					m.Payload = &sip.MiscPayload{T: "a/b", D: c.R.Bytes(c.R.Range(1, 50))}
				}
				in := []byte(m.String())
				if c.R.Bool() {
					in = (&speller{r: c.R, wild: 0}).msg(m)
				}
				if _, err := sip.ParseMsg(in); err != nil {
					c.Failf("refused", "complete message refused: %v\n%q", err, in)
					return
				}
				for i := 0; i < len(in); i++ {
					if got, err := sip.ParseMsg(in[:i:i]); err == nil && got != nil {
						c.Failf("prefix-accepted", "message cut to %d of %d bytes was accepted\n%q", i, len(in), in[:i])
						return
					}
				}
				c.Eval(int64(len(in)))
				c.Count("cut points tried", int64(len(in)))
				c.Seen(string(in))
				c.Sample("cut at every point", "%.300q", in)
			})
			x.Run("lengths", x.N(20000, 300000), 0, func(c *mon.C) {
				r := c.R
				body := r.Bytes(r.Range(1, 300))
				if r.P(0.2) {
					body = r.Bytes(r.Range(1, 3000))
				}
				if r.P(0.3) {
					body = []byte(strings.Repeat(r.Pick("\r\n", "\x00", "v=0\r\n", "\r\n\r\n", "Content-Length: 5\r\n"), r.Range(1, 20)))
				}
				head := "SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKx\r\nFrom: <sip:a@b>;tag=1\r\nTo: <sip:c@d>\r\nCall-ID: x\r\nCSeq: 1 INFO\r\n"
				kind := r.Pick("application/x", "text/plain", "")
				mk := func(n string) []byte {
					h := r.Pick("Content-Length: ", "l: ", "CONTENT-LENGTH:") + n + "\r\n"
					ct := ""
					if kind != "" {
						ct = "Content-Type: " + kind + "\r\n"
					}
					if r.Bool() {
						return append([]byte(head+h+ct+"\r\n"), body...)
					}
					return append([]byte(head+ct+h+"\r\n"), body...)
				}
				in := mk(fmt.Sprint(len(body)))
				keep := bytes.Clone(in)
				got, err := sip.ParseMsg(in)
				if err != nil {
					c.Failf("refused", "message with a correct length refused: %v\n%q", err, in)
					return
				}
				if got.Payload == nil || !bytes.Equal(got.Payload.Data(), body) || got.Payload.ContentType() != kind {
					c.Failf("body", "body changed: sent %q got %+v", body, got.Payload)
					return
				}
				if !bytes.Equal(in, keep) {
					c.Failf("input-modified", "input modified")
				}
				out := got.String()
				w, err := wire.Parse([]byte(out))
				if err != nil || w.Get("content-length") != fmt.Sprint(len(body)) || !bytes.Equal(w.Body, body) {
					c.Failf("render", "rendered body or length wrong (%v): %q", err, out)
				}
				L := len(body)
				for _, n := range []int{L - 1, L + 1, 2 * L, L + 256, L + 65536, L + 1<<32, L + 10, L * 10, r.Range(1, 5000)} {
					if n == L || n <= 0 {
						continue
					}
					if _, err := sip.ParseMsg(mk(fmt.Sprint(n))); err == nil {
						c.Failf("mis-sized", "declared %d, present %d, accepted", n, L)
					}
				}
				// beyond 64 bits, congruent to the real length
				big1 := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(int64(L)))
				if _, err := sip.ParseMsg(mk(big1.String())); err == nil {
					c.Failf("mis-sized", "declared %s, present %d, accepted", big1, L)
				}
				c.Count("wrong lengths tried", 9)
				c.Seen(fmt.Sprint(L, string(body[:min(8, L)])))
			})
			x.Run("render", x.N(5000, 50000), 0, func(c *mon.C) {
				m := genAnyMsg(c.R)
				out := m.String()
				i := strings.Index(out, "\r\n\r\n")
				var n = -1
				var cnt int
				for _, l := range strings.Split(out[:i], "\r\n") {
					if strings.HasPrefix(strings.ToLower(l), "content-length:") {
						fmt.Sscanf(l[15:], "%d", &n)
						cnt++
					}
				}
				if n != len(out)-i-4 || cnt != 1 {
					c.Failf("render", "declares %d (%d declarations) but has %d body bytes: %q", n, cnt, len(out)-i-4, out)
				}
				var want []byte
				if m.Payload != nil {
					want = m.Payload.Data()
				}
				if out[i+4:] != string(want) {
					c.Failf("render", "body on the wire is not the payload: %q", out)
				}
			})
		},
	})

	// ---------------------------------------------------------------- S07
	mon.Register(&mon.Check{
		ID: "S07",
		Rule: "Every numeric position of a message or URI gets decimal strings around all field widths (2^8, 2^16, 2^31, 2^32, 2^63, 2^64, multiples congruent to small numbers, many digits, leading zeros); the field must equal the value or the message be refused, and values any conforming peer may send must be accepted. Content lengths off by some bytes, glued to text or repeated, and numeric headers that occur twice. " +
			"Distinct = different position and digit string.",
		Run: func(x *mon.Ctx) {
			x.Run("numbers", x.N(40000, 400000), 0, numberCase)
			x.Run("lengths", x.N(8000, 80000), 0, lengthCase)
			x.Run("several", x.N(8000, 80000), 0, severalCase)
		},
	})

	// ---------------------------------------------------------------- S08
	mon.Register(&mon.Check{
		ID: "S08",
		Rule: "Random messages are copied; copy and original must render and dump equally; then random edits through all reachable public fields (targets, display names, URI parts, list links, Via fields, parameter names/values, scalars) are applied to one side and the other side's dump must stay the same. " +
			"Lists are reversed, detached, walked and compared with slices; names are looked up in lists with similar ones. Distinct = different edit kind and message shape.",
		Run: func(x *mon.Ctx) {
			x.Run("copy", x.N(8000, 100000), 0, copyCase)
			x.Run("lists", x.N(8000, 100000), 0, listCase)
			x.Run("lookup", x.N(8000, 100000), 0, lookupCase)
		},
	})
}

// lookupCase looks up names in lists with entries of similar names.
func lookupCase(c *mon.C) {
	r := c.R
	name := func() string {
		s := r.Pick("tag", "ta", "tags", "tag-", "xtag", "lr", "l", "lrr", "rport", "report", "branch", "x-a", "x_a", "x-a-b", "method")
		b := []byte(s)
		for i := range b {
			if 'a' <= b[i] && b[i] <= 'z' && r.P(0.2) {
				b[i] -= 'a' - 'A'
			}
		}
		return string(b)
	}
	names := make([]string, r.IntN(9))
	for i := range names {
		names[i] = name()
	}
	// the same list of every kind
	var ps []*sip.Param
	var us []*sip.URIParam
	var hs []*sip.URIHeader
	var xs []*sip.XHeader
	for i, n := range names {
		ps, us = append(ps, &sip.Param{Name: n}), append(us, &sip.URIParam{Name: n})
		hs, xs = append(hs, &sip.URIHeader{Name: n}), append(xs, &sip.XHeader{Name: n})
		if i > 0 {
			ps[i-1].Next, us[i-1].Next, hs[i-1].Next, xs[i-1].Next = ps[i], us[i], hs[i], xs[i]
		}
	}
	var p *sip.Param
	var u *sip.URIParam
	var h *sip.URIHeader
	var x *sip.XHeader
	if len(names) > 0 {
		p, u, h, x = ps[0], us[0], hs[0], xs[0]
	}
	for k := 0; k < 4; k++ {
		want := name()
		at := -1
		for i := len(names) - 1; i >= 0; i-- {
			if strings.ToLower(names[i]) == strings.ToLower(want) {
				at = i
			}
		}
		var wp *sip.Param
		var wu *sip.URIParam
		var wh *sip.URIHeader
		var wx *sip.XHeader
		if at >= 0 {
			wp, wu, wh, wx = ps[at], us[at], hs[at], xs[at]
		}
		c.Eval(4)
		for kind, ok := range map[string]bool{"parameters": p.Get(want) == wp, "URI parameters": u.Get(want) == wu, "URI headers": h.Get(want) == wh, "extension headers": x.Get(want) == wx} {
			if !ok {
				c.Failf("lookup", "%q is not found at %d among the %s %q", want, at, kind, names)
				return
			}
		}
		c.Seen(fmt.Sprintf("lookup %d of %d", at, len(names)))
	}
}

// representable gives the part of s a quoted string can hold: up to the first
// bare line break or invalid UTF-8.
func representable(s string) string {
	for i := 0; i < len(s); {
		switch {
		case s[i] == '\r':
			if i+2 < len(s) && s[i+1] == '\n' && (s[i+2] == ' ' || s[i+2] == '\t') {
				i += 3
				continue
			}
			return s[:i]
		case s[i] == '\n':
			return s[:i]
		case s[i] < 0x80:
			i++
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			if r == utf8.RuneError && n <= 1 {
				return s[:i]
			}
			i += n
		}
	}
	return s
}

func onlyToken(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(tokenS, s[i]) >= 0 {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func hostile(r *mon.Rand) string {
	var b strings.Builder
	for n := r.Range(1, 6); n > 0; n-- {
		switch r.IntN(8) {
		case 0:
			b.WriteString(r.Pick("\r\n", "\n", "\r", "\r\n ", "\r\n\t", "\r\nEvil: 1", "\n\n", "\r\n\r\n"))
		case 1:
			b.WriteString(r.Pick("\"", "\\", "\\\"", "\"\"", "\\\\", ">", "<", "<sip:evil>", ";evil=1", ",", "\", <sip:evil>", "=", ": "))
		case 2:
			b.Write(r.Bytes(r.Range(1, 3)))
		case 3:
			b.WriteRune(runes[r.IntN(len(runes))])
		case 4:
			b.WriteString(r.Pick(" ", "\t", "  ", " \t"))
		case 5:
			b.WriteString(r.Pick("\x00", "\x7f", "\x1b", "\x08", "\x0b"))
		default:
			b.WriteString(str(r, alnum, 1, 5))
		}
	}
	return b.String()
}

func injectCase(c *mon.C) {
	s := hostile(c.R)
	if c.R.P(0.05) { // however long it is
		for n := 1 << c.R.Range(5, 12); len(s) < n; {
			s += c.R.Pick(str(c.R, alnum, 1, 60), hostile(c.R), plainText(c.R, 1, 60))
		}
	}
	inject(c, s, c.R.IntN(4))
}

// inject puts s into a display name (0), a parameter value of an address (1),
// a parameter name (2) or a Via parameter value (3) of a message.
func inject(c *mon.C, s string, pos int) {
	c.Eval(1)
	r := c.R
	fresh := func() *sip.Addr { return &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "u", Host: "h"}} }
	m := &sip.Msg{VersionMajor: 2, Method: "INVITE", Request: fresh().Uri, MaxForwards: 9, CallID: "cid", CSeq: 3, CSeqMethod: "INVITE",
		From: fresh(), To: fresh(), Via: &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h", Port: 99, Param: &sip.Param{Name: "branch", Value: "b"}},
		Subject: "subject", XHeader: &sip.XHeader{Name: "X", Value: []byte("y")}}
	var a *sip.Addr
	where := r.IntN(4)
	switch where {
	case 0:
		a = m.From
	case 1:
		a = m.To
	case 2:
		m.Contact = fresh()
		m.Contact.Next = fresh()
		a = m.Contact
	case 3:
		m.Route = fresh()
		m.Route.Next = fresh()
		a = m.Route.Next
	}
	a.Param = &sip.Param{Name: "tag", Value: "t"}
	// want is the same message with what should survive
	want := m.Copy()
	rep := representable(s)
	pick := func(w *sip.Msg) *sip.Addr {
		return []*sip.Addr{w.From, w.To, w.Contact, w.Route.Last()}[where]
	}
	b := pick(want)
	b.Param = &sip.Param{Name: "tag", Value: "t"}
	switch pos {
	case 0:
		a.Display, b.Display = s, rep
	case 1:
		a.Param = &sip.Param{Name: "lol", Value: s, Next: a.Param}
		b.Param = &sip.Param{Name: "lol", Value: rep, Next: b.Param}
		a.Param = &sip.Param{Name: "z", Next: a.Param}
		b.Param = &sip.Param{Name: "z", Next: b.Param}
	case 2:
		n := onlyToken(s)
		a.Param = &sip.Param{Name: s, Value: "v", Next: a.Param}
		if n != "" {
			b.Param = &sip.Param{Name: n, Value: "v", Next: b.Param}
		}
		a.Param = &sip.Param{Name: "z", Next: a.Param}
		b.Param = &sip.Param{Name: "z", Next: b.Param}
	case 3:
		m.Via.Param = &sip.Param{Name: "lol", Value: s, Next: m.Via.Param}
		want.Via.Param = &sip.Param{Name: "lol", Value: rep, Next: &sip.Param{Name: "branch", Value: "b"}}
		m.Via.Param = &sip.Param{Name: "z", Next: m.Via.Param}
		want.Via.Param = &sip.Param{Name: "z", Next: want.Via.Param}
	}
	out := m.String()
	got, err := sip.ParseMsg([]byte(out))
	if err != nil {
		c.Failf("unparseable", "text %q in position %d makes the message unparseable: %v\n%q", s, pos, err, out)
		return
	}
	if ok, d := sameMsg(want, got); !ok {
		kind := "injection"
		if rep == s && pos != 2 {
			kind = "text-lost"
		}
		c.Failf(kind, "text %q in position %d:\n%s\nrendered: %q", s, pos, d, out)
	}
	c.Count("texts placed", 1)
	if rep != s {
		c.Count("texts that had to be cut", 1)
	}
	cls := ""
	for _, f := range []string{"\r", "\n", "\"", "\\", ";", ",", "<", "\x00", " "} {
		cls += fmt.Sprint(strings.Contains(s, f))
	}
	c.Seen(fmt.Sprint(pos, where, cls, validUTF8(s), isToken(s), len(rep) == len(s), len(s)))
	c.Sample(fmt.Sprintf("position %d", pos), "%q -> %q", s, out)
}

func uriCase(c *mon.C, u *sip.URI) {
	want := dump(u)
	out := u.String()
	got, err := sip.ParseURI([]byte(out))
	if err != nil {
		c.Failf("unparseable", "rendered URI %q is refused: %v\n%s", out, err, want)
		return
	}
	if g := dump(got); g != want {
		c.Failf("lossy", "URI %q:\n%s", out, diff(want, g))
		return
	}
	if again := got.String(); again != out {
		c.Failf("unstable", "%q re-rendered as %q", out, again)
	}
	s := &speller{r: c.R, wild: 2}
	in := s.uri(u)
	got, err = sip.ParseURI([]byte(in))
	if err != nil {
		c.Failf("refused", "URI %q refused: %v", in, err)
		return
	}
	if g := dump(got); g != want {
		c.Failf("wrong-content", "URI %q:\n%s", in, diff(want, g))
	}
	c.Eval(1)
	c.Seen(out)
	c.Sample("uri", "%q spelled %q", out, in)
}

// ---------------------------------------------------------------- S07

var two = big.NewInt(2)

func genNumber(r *mon.Rand) string {
	bits := []uint{0, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 72, 128, 200}
	n := new(big.Int).Lsh(big.NewInt(1), bits[r.IntN(len(bits))])
	switch r.IntN(4) {
	case 0:
		n.Mul(n, big.NewInt(int64(r.Range(1, 9))))
	case 1:
		n.Add(n, big.NewInt(int64(r.Range(0, 6000))))
	}
	n.Add(n, big.NewInt(int64(r.Range(-3, 3))))
	if r.P(0.2) {
		n = big.NewInt(int64(r.IntN(100000)))
	}
	if n.Sign() < 0 {
		n.SetInt64(0)
	}
	s := n.String()
	if r.P(0.15) {
		s = strings.Repeat("0", r.Range(1, 30)) + s
	}
	return s
}

func numberCase(c *mon.C) {
	r := c.R
	num := genNumber(r)
	val, _ := new(big.Int).SetString(num, 10)
	must := func(limit int64) bool { return val.Cmp(big.NewInt(limit)) <= 0 }
	base := map[string]string{"major": "2", "minor": "0", "vport": "", "uport": "", "cseq": "5", "exp": "", "mf": "7", "minexp": "", "aport": ""}
	pos := []string{"major", "minor", "vport", "uport", "aport", "cseq", "exp", "mf", "minexp", "uri", "cseq2", "sdpport"}[c.ID.Index%12]
	build := func() []byte {
		b := base
		p := func(k, pre string) string {
			if b[k] == "" {
				return ""
			}
			return pre + b[k]
		}
		h := "INVITE sip:u@h" + p("uport", ":") + " SIP/" + b["major"] + "." + b["minor"] + "\r\n" +
			"Via: SIP/2.0/UDP h" + p("vport", ":") + ";branch=z\r\nFrom: <sip:a@b" + p("aport", ":") + ">;tag=1\r\nTo: <sip:c@d>\r\nCall-ID: x\r\n" +
			"CSeq: " + b["cseq"] + " INVITE\r\nMax-Forwards: " + b["mf"] + "\r\n"
		if b["exp"] != "" {
			h += "Expires: " + b["exp"] + "\r\n"
		}
		if b["minexp"] != "" {
			h += "Min-Expires: " + b["minexp"] + "\r\n"
		}
		if b["cseq2"] != "" {
			h += "CSeq: " + b["cseq2"] + " INVITE\r\n"
		}
		return []byte(h + "Content-Length: 0\r\n\r\n")
	}
	check := func(what string, got int64, accepted bool, err error, limit int64) {
		c.Eval(1)
		if accepted {
			if big.NewInt(got).Cmp(val) != 0 {
				c.Failf("wrapped-"+what, "%s %s was read as %d", what, num, got)
			}
			c.Count("accepted", 1)
		} else {
			c.Count("refused", 1)
			if must(limit) {
				c.Failf("refused-"+what, "%s %s was refused: %v", what, num, err)
			}
		}
		c.Seen(what + num)
		c.Sample(what, "%s -> accepted=%v", num, accepted)
	}
	if pos == "uri" {
		u, err := sip.ParseURI([]byte("sip:h:" + num))
		var g int64
		if err == nil {
			g = int64(u.Port)
		}
		check("uri port", g, err == nil, err, 65535)
		return
	}
	if pos == "sdpport" {
		s, err := sdp.Parse("v=0\r\no=a 1 1 IN IP4 1.2.3.4\r\nc=IN IP4 1.2.3.4\r\nm=audio " + num + " RTP/AVP 0\r\n")
		var g int64
		if err == nil {
			g = int64(s.Audio.Port)
		}
		check("media port", g, err == nil, err, 65535)
		return
	}
	if pos == "cseq2" {
		// a repeated sequence header must not be glued to the first
		base["cseq"], base["cseq2"] = "12", "34"
		m, err := sip.ParseMsg(build())
		if err == nil && m.CSeq != 12 && m.CSeq != 34 {
			c.Failf("wrapped-cseq", "two sequence headers 12 and 34 were read as %d", m.CSeq)
		}
		return
	}
	base[pos] = num
	m, err := sip.ParseMsg(build())
	var g int64
	limit := int64(1<<31 - 1)
	if err == nil {
		switch pos {
		case "major":
			g = int64(m.VersionMajor)
		case "minor":
			g = int64(m.VersionMinor)
		case "vport":
			g = int64(m.Via.Port)
		case "uport":
			g = int64(m.Request.Port)
		case "aport":
			g = int64(m.From.Uri.Port)
		case "cseq":
			g = int64(m.CSeq)
		case "exp":
			g = int64(m.Expires)
		case "mf":
			g = int64(m.MaxForwards)
		case "minexp":
			g = int64(m.MinExpires)
		}
	}
	switch pos {
	case "major", "minor":
		limit = 255
	case "vport", "uport", "aport":
		limit = 65535
	}
	check(pos, g, err == nil, err, limit)
}

// lengthCase writes body lengths, right ones and others.
func lengthCase(c *mon.C) {
	r := c.R
	body := []byte(str(r, alnum, 1, 300))
	num := fmt.Sprint(len(body))
	switch r.IntN(5) {
	case 0:
		num = strings.Repeat("0", r.Range(1, 40)) + num
	case 1: // the same after wrapping
		n := new(big.Int).Lsh(big.NewInt(int64(r.Range(1, 5))), uint([]int{8, 16, 31, 32, 63, 64, 128}[r.IntN(7)]))
		num = n.Add(n, big.NewInt(int64(len(body)))).String()
	case 2:
		num = genNumber(r)
	}
	val, _ := new(big.Int).SetString(num, 10)
	raw := []byte("MESSAGE sip:u@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z\r\nFrom: <sip:a@b>;tag=1\r\nTo: <sip:c@d>\r\nCall-ID: x\r\nCSeq: 1 MESSAGE\r\n" +
		"Content-Type: text/plain\r\n" + r.Pick("Content-Length: ", "l: ", "content-length : ") + num + "\r\n" + r.Pick("", "", "Subject: x\r\nContent-Length: "+num+"\r\n") + "\r\n")
	m, err := sip.ParseMsg(append(raw, body...))
	right := val.Cmp(big.NewInt(int64(len(body)))) == 0
	if err != nil {
		c.Count("refused", 1)
		if right {
			c.Failf("refused-length", "a body of %d bytes with the length %s is refused: %v", len(body), num, err)
		}
	} else {
		c.Count("accepted", 1)
		if m.Payload != nil && (!right || string(m.Payload.Data()) != string(body)) {
			c.Failf("wrapped-length", "a body of %d bytes with the length %s is read as %d bytes", len(body), num, len(m.Payload.Data()))
		} else if m.Payload == nil && val.Sign() != 0 {
			c.Failf("lost-length", "a body of %d bytes with the length %s is accepted and lost", len(body), num)
		}
	}
	c.Seen("length" + num)
}

// severalCase writes many numbers into one message.  None may run into another,
// and of those given twice one must be read.
func severalCase(c *mon.C) {
	r := c.R
	n := func(limit int) string {
		v := r.IntN(limit)
		if r.Bool() {
			v %= 1000
		}
		return strings.Repeat("0", r.Pick2(0, r.IntN(4))) + fmt.Sprint(v)
	}
	var lines []string
	type num struct {
		what string
		vals []string
		get  func(m *sip.Msg) int
	}
	nums := []num{
		{what: "CSeq", get: func(m *sip.Msg) int { return m.CSeq }},
		{what: "Expires", get: func(m *sip.Msg) int { return m.Expires }},
		{what: "Max-Forwards", get: func(m *sip.Msg) int { return m.MaxForwards }},
		{what: "Min-Expires", get: func(m *sip.Msg) int { return m.MinExpires }},
	}
	for i := range nums {
		for k := r.Range(1, 3); k > 0; k-- {
			v := n(1 << 31)
			nums[i].vals = append(nums[i].vals, v)
			if nums[i].what == "CSeq" {
				v += " OPTIONS"
			}
			lines = append(lines, nums[i].what+": "+v)
		}
	}
	var vias, contacts, ids []string
	for k := r.Range(1, 4); k > 0; k-- {
		vias = append(vias, n(65536))
		contacts = append(contacts, n(65536))
		ids = append(ids, n(65536))
		lines = append(lines, "Via: SIP/2.0/UDP h:"+vias[len(vias)-1]+";branch=z")
	}
	list := func(ports []string) string {
		var l []string
		for _, p := range ports {
			l = append(l, "<sip:a@h:"+p+">")
		}
		return strings.Join(l, ", ")
	}
	lines = append(lines, "Contact: "+list(contacts), "Route: "+list(ids), "From: <sip:a@b>;tag=1", "To: <sip:c@d>", "Call-ID: x", "Content-Length: 0")
	r.Shuffle(len(lines), func(i, j int) {
		if !strings.HasPrefix(lines[i], "Via") && !strings.HasPrefix(lines[j], "Via") {
			lines[i], lines[j] = lines[j], lines[i]
		}
	})
	raw := "OPTIONS sip:u@h SIP/2.0\r\n" + strings.Join(lines, "\r\n") + "\r\n\r\n"
	m, err := sip.ParseMsg([]byte(raw))
	if err != nil {
		c.Failf("refused-several", "%v\n%s", err, raw)
		return
	}
	same := func(got int, s string) bool {
		v, _ := strconv.Atoi(s)
		return v == got
	}
	for _, x := range nums {
		ok := false
		for _, v := range x.vals {
			ok = ok || same(x.get(m), v)
		}
		if !ok {
			c.Failf("glued", "%s, given as %v, is read as %d\n%s", x.what, x.vals, x.get(m), raw)
			return
		}
	}
	i := 0
	for v := m.Via; v != nil; v, i = v.Next, i+1 {
		if i >= len(vias) || !same(int(v.Port), vias[i]) {
			c.Failf("glued", "the ports of the hops %v: number %d is read as %d\n%s", vias, i, v.Port, raw)
			return
		}
	}
	for _, l := range []struct {
		a    *sip.Addr
		want []string
	}{{m.Contact, contacts}, {m.Route, ids}} {
		i := 0
		for a := l.a; a != nil; a, i = a.Next, i+1 {
			if i >= len(l.want) || !same(int(a.Uri.Port), l.want[i]) {
				c.Failf("glued", "the ports of the addresses %v: number %d is read as %d\n%s", l.want, i, a.Uri.Port, raw)
				return
			}
		}
	}
	c.Seen(fmt.Sprintf("several %d %d %d %d", len(nums[0].vals), len(nums[1].vals), len(nums[2].vals), len(vias)))
}

// ---------------------------------------------------------------- S08

// edits changes one thing reachable from the message and says what.
func edit(r *mon.Rand, m *sip.Msg) string {
	addrs := []*sip.Addr{m.From, m.To, m.Contact, m.Route, m.RecordRoute, m.PAssertedIdentity, m.RemotePartyID}
	var as []*sip.Addr
	for _, a := range addrs {
		for ; a != nil; a = a.Next {
			as = append(as, a)
		}
	}
	var vs []*sip.Via
	for v := m.Via; v != nil; v = v.Next {
		vs = append(vs, v)
	}
	a := as[r.IntN(len(as))]
	v := vs[r.IntN(len(vs))]
	var ps []*sip.Param
	for _, x := range as {
		for p := x.Param; p != nil; p = p.Next {
			ps = append(ps, p)
		}
	}
	for _, x := range vs {
		for p := x.Param; p != nil; p = p.Next {
			ps = append(ps, p)
		}
	}
	us := []*sip.URI{a.Uri}
	if m.Request != nil {
		us = append(us, m.Request)
	}
	u := us[r.IntN(len(us))]
	switch k := r.IntN(17); k {
	case 0:
		a.Display += "!"
		return "display"
	case 1:
		u.User += "x"
		return "uri user"
	case 2:
		u.Host += "x"
		return "uri host"
	case 3:
		u.Port ^= 1
		return "uri port"
	case 4:
		u.Scheme += "x"
		return "uri scheme"
	case 5:
		u.Param = &sip.URIParam{Name: "evil", Next: u.Param}
		return "uri param added"
	case 6:
		a.Param = &sip.Param{Name: "evil", Next: a.Param}
		return "addr param added"
	case 7:
		a.Next = nil
		a.Last().Next = &sip.Addr{Uri: &sip.URI{Host: "evil"}}
		return "addr list"
	case 8:
		v.Host += "x"
		return "via host"
	case 9:
		v.Port ^= 1
		return "via port"
	case 10:
		v.Param = &sip.Param{Name: "evil", Next: v.Param}
		return "via param added"
	case 11:
		v.Next = &sip.Via{Host: "evil"}
		return "via list"
	case 12, 13:
		if len(ps) > 0 {
			p := ps[r.IntN(len(ps))]
			if k == 12 {
				p.Value += "x"
				return "param value"
			}
			p.Name += "x"
			return "param name"
		}
	case 14:
		if u.Param != nil {
			u.Param.Value += "x"
			return "uri param value"
		}
		if u.Header != nil {
			u.Header.Value += "x"
			return "uri header value"
		}
	case 15:
		m.CSeq++
		m.Subject += "x"
		return "scalars"
	case 16:
		m.Contact, m.Route = nil, &sip.Addr{Uri: &sip.URI{Host: "evil"}, Next: m.Route}
		return "heads"
	}
	return ""
}

func copyCase(c *mon.C) {
	m := genAnyMsg(c.R)
	before := dump(m)
	cp := m.Copy()
	if g := dump(cp); g != before {
		c.Failf("incomplete", "the copy differs from the original:\n%s", diff(before, g))
		return
	}
	if m.String() != cp.String() {
		c.Failf("incomplete", "copy renders differently:\n%q\n%q", m, cp)
	}
	// component copies
	if a := m.Contact; a != nil {
		if dump(a) != dump(a.Copy()) {
			c.Failf("incomplete", "address list copy differs:\n%s", diff(dump(a), dump(a.Copy())))
		}
	}
	if dump(m.Via) != dump(m.Via.Copy()) {
		c.Failf("incomplete", "via list copy differs:\n%s", diff(dump(m.Via), dump(m.Via.Copy())))
	}
	if dump(m.Request) != dump(m.Request.Copy()) {
		c.Failf("incomplete", "uri copy differs")
	}
	x, y, who := m, cp, "original changed through copy"
	if c.R.Bool() {
		x, y, who = cp, m, "copy changed through original"
	}
	base := dump(x)
	for n := c.R.Range(1, 6); n > 0; n-- {
		k := edit(c.R, y)
		if k == "" {
			continue
		}
		c.Eval(1)
		c.Count("edits", 1)
		if g := dump(x); g != base {
			c.Failf("shared", "%s by edit of %s:\n%s", who, k, diff(base, g))
			return
		}
		c.Seen(k + shape(m))
	}
	c.Sample("copy", "%.300q", m)
}

func listCase(c *mon.C) {
	a := genAddrs(c.R, 1, 7)
	var items []string
	for x := a; x != nil; x = x.Next {
		y := *x
		y.Next = nil
		items = append(items, dump(&y))
	}
	before := dump(a)
	rev := a.Reversed()
	i := len(items) - 1
	for x := rev; x != nil; x = x.Next {
		y := *x
		y.Next = nil
		if i < 0 || dump(&y) != items[i] {
			c.Failf("reversed", "reversing\n%s gave\n%s", a, rev)
			return
		}
		i--
	}
	if i != -1 {
		c.Failf("reversed", "reversing\n%s gave\n%s", a, rev)
	}
	if dump(a) != before {
		c.Failf("reversed-modifies", "reversing changed the list:\n%s", diff(before, dump(a)))
	}
	if a.Len() != len(items) || rev.Len() != len(items) {
		c.Failf("len", "length %d reversed %d, want %d", a.Len(), rev.Len(), len(items))
	}
	l := *a.Last()
	if l.Next != nil || dump(&l) != items[len(items)-1] {
		c.Failf("last", "last of %s is %s", a, &l)
	}
	v := genVia(c.R, 1, 5)
	vb := dump(v)
	end := v
	for end.Next != nil {
		end = end.Next
	}
	if v.Last() != end {
		c.Failf("last", "last hop of %s is %s", dump(v), dump(v.Last()))
	}
	d := v.Detach()
	one := *v
	one.Next = nil
	if d.Next != nil || dump(d) != dump(&one) {
		c.Failf("detach", "detached hop is wrong:\n%s", diff(dump(&one), dump(d)))
	}
	d.Host, d.Next = "changed", &sip.Via{Host: "evil"}
	if dump(v) != vb {
		c.Failf("detach-shared", "detaching or editing the detached hop changed the list:\n%s", diff(vb, dump(v)))
	}
	var nilA *sip.Addr
	var nilV *sip.Via
	if nilA.Copy() != nil || nilA.Reversed() != nil || nilA.Len() != 0 || nilA.Last() != nil || nilV.Copy() != nil || nilV.Last() != nil {
		c.Failf("nil", "operations on empty lists")
	}
	c.Seen(fmt.Sprint(len(items), v.Param != nil, a.Display))
}

package checks

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"verif/mon"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
)

// speller writes a message the way some other implementation might: any
// legal choice of case, compact names, order, whitespace, folding, quoting,
// and list style.  wild=0 gives the plain spelling.
type speller struct {
	r    *mon.Rand
	wild float64
	// bodyless etc. could be added; Content-Length is always declared.
}

func (s *speller) p(f float64) bool { return s.wild > 0 && s.r.P(f*s.wild) }

func (s *speller) wsp() string { return s.r.Pick(" ", "  ", "\t", " \t") }

// sws is optional whitespace, maybe with a fold.
func (s *speller) sws() string {
	if !s.p(0.35) {
		return ""
	}
	return s.lws()
}

// lws is whitespace, maybe with a fold.
func (s *speller) lws() string {
	if s.p(0.3) {
		return s.r.Pick("", " ", "\t ") + "\r\n" + s.wsp()
	}
	if s.p(0.3) {
		return s.wsp()
	}
	return " "
}

func (s *speller) name(n string) string {
	if c, ok := compactName[n]; ok && s.p(0.35) {
		n = c
	}
	return s.caseOf(n)
}

func (s *speller) caseOf(n string) string {
	if !s.p(0.4) {
		return n
	}
	b := []byte(n)
	for i := range b {
		if 'a' <= b[i]|0x20 && b[i]|0x20 <= 'z' && s.r.Bool() {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

// colon separates the name from the value.
func (s *speller) colon() string {
	c := ":"
	if s.p(0.2) {
		c = s.wsp() + c
	}
	if s.p(0.4) {
		return c + s.sws()
	}
	return c + " "
}

func (s *speller) sep(c string) string { return s.sws() + c + s.sws() }

// quoted writes a quoted string with more or less escaping.
func (s *speller) quoted(v string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(v); i++ {
		c := v[i]
		must := c == '"' || c == '\\' || c < 0x20 && c != '\t' && c != '\r' && c != '\n' || c == 0x7f
		fold := i > 0 && v[i-1] == '\n' // this blank makes the line break a fold
		if must || c < 0x80 && c != '\r' && c != '\n' && !fold && s.p(0.1) {
			b.WriteByte('\\')
		}
		b.WriteByte(c)
	}
	b.WriteByte('"')
	return b.String()
}

const hostishS = tokenS + "[]:"

func (s *speller) params(p *sip.Param) string {
	if p == nil {
		return ""
	}
	out := s.params(p.Next) + s.sep(";") + p.Name
	if p.Value != "" {
		out += s.sep("=")
		plain := true
		for i := 0; i < len(p.Value); i++ {
			if strings.IndexByte(hostishS, p.Value[i]) < 0 {
				plain = false
			}
		}
		if plain && !s.p(0.3) {
			out += p.Value
		} else {
			out += s.quoted(p.Value)
		}
	} else if s.p(0.1) {
		out += s.sep("=") + `""`
	}
	return out
}

// esc percent-escapes what has to be, and sometimes what needn't be.
func (s *speller) esc(v, free string) string {
	var b strings.Builder
	for i := 0; i < len(v); i++ {
		if strings.IndexByte(free, v[i]) >= 0 && !s.p(0.1) {
			b.WriteByte(v[i])
		} else if s.r.Bool() || s.wild == 0 {
			fmt.Fprintf(&b, "%%%02x", v[i])
		} else {
			fmt.Fprintf(&b, "%%%02X", v[i])
		}
	}
	return b.String()
}

const unresS = alnum + "-_.!~*'()"

func (s *speller) uri(u *sip.URI) string {
	var b strings.Builder
	b.WriteString(s.caseOf(u.Scheme) + ":")
	if u.User != "" {
		b.WriteString(s.esc(u.User, unresS+"&=+$,;?/"))
		if u.Pass != "" {
			b.WriteString(":" + s.esc(u.Pass, unresS+"&=+$,"))
		}
		b.WriteString("@")
	}
	if strings.Contains(u.Host, ":") {
		b.WriteString("[" + s.caseOf(u.Host) + "]")
	} else {
		b.WriteString(s.caseOf(u.Host))
	}
	if u.Port != 0 {
		b.WriteString(":" + strconv.Itoa(int(u.Port)))
	}
	var ps func(p *sip.URIParam)
	ps = func(p *sip.URIParam) {
		if p == nil {
			return
		}
		ps(p.Next)
		b.WriteString(";" + s.esc(p.Name, unresS+"[]/:&+$"))
		if p.Value != "" {
			b.WriteString("=" + s.esc(p.Value, unresS+"[]/:&+$"))
		}
	}
	ps(u.Param)
	sepc := "?"
	var hs func(p *sip.URIHeader)
	hs = func(p *sip.URIHeader) {
		if p == nil {
			return
		}
		hs(p.Next)
		b.WriteString(sepc + s.esc(p.Name, unresS+"[]/?:+$"))
		if p.Value != "" {
			b.WriteString("=" + s.esc(p.Value, unresS+"[]/?:+$"))
		}
		sepc = "&"
	}
	hs(u.Header)
	return b.String()
}

var wordsRE = func() *regexp.Regexp {
	w := "[-" + regexp.QuoteMeta(strings.ReplaceAll(tokenS, "-", "")) + "]+"
	return regexp.MustCompile("^" + w + "(?:(?:[ \t]*\r\n)?[ \t]+" + w + ")*$")
}()

// plainDisplay tells if it can be written without quotes.
func plainDisplay(d string) bool { return wordsRE.MatchString(d) }

func (s *speller) addr(a *sip.Addr) string {
	u := s.uri(a.Uri)
	if a.Display == "" && a.Uri.Param == nil && !strings.ContainsAny(u, ",;?") && s.p(0.4) {
		// Without angle brackets the parameters belong to the address.
		return u + s.params(a.Param)
	}
	d := ""
	switch {
	case a.Display == "":
		if s.p(0.05) {
			d = `""` + s.sws()
		}
	case plainDisplay(a.Display) && !s.p(0.4):
		d = a.Display + s.lws()
	default:
		d = s.quoted(a.Display)
		if s.wild == 0 || !s.p(0.3) {
			d += " "
		} else {
			d += s.sws()
		}
	}
	out := d + "<" + u + ">"
	if ps := s.params(a.Param); ps != "" {
		return out + ps
	}
	return out
}

func (s *speller) via(v *sip.Via) string {
	h := v.Host
	if strings.Contains(h, ":") {
		h = "[" + h + "]"
	}
	out := v.Protocol + s.sep("/") + v.Version + s.sep("/") + v.Transport + s.lws() + h
	if v.Port != 0 {
		out += s.sep(":") + strconv.Itoa(int(v.Port))
	}
	return out + s.params(v.Param)
}

// list writes the entries as one or several headers.
func (s *speller) list(name string, entries []string) (lines []string) {
	cur := ""
	for i, e := range entries {
		if i == 0 {
			cur = s.name(name) + s.colon() + e
		} else if s.wild == 0 || s.r.Bool() {
			lines = append(lines, cur)
			cur = s.name(name) + s.colon() + e
		} else {
			cur += s.sep(",") + e
		}
	}
	if cur != "" {
		lines = append(lines, cur)
	}
	return
}

func (s *speller) addrs(a *sip.Addr) (out []string) {
	for ; a != nil; a = a.Next {
		out = append(out, s.addr(a))
	}
	return
}

// msg writes the message.  Groups of lines keep their order inside, but the
// groups are interleaved at random.
func (s *speller) msg(m *sip.Msg) []byte {
	var groups [][]string
	one := func(field, val string) {
		groups = append(groups, []string{s.name(headerName(field)) + s.colon() + val})
	}
	groups = append(groups, s.list("From", s.addrs(m.From)), s.list("To", s.addrs(m.To)))
	var vias []string
	for v := m.Via; v != nil; v = v.Next {
		vias = append(vias, s.via(v))
	}
	groups = append(groups, s.list("Via", vias))
	v := reflect.ValueOf(m).Elem()
	for _, f := range addrFields {
		groups = append(groups, s.list(headerName(f), s.addrs(v.FieldByName(f).Interface().(*sip.Addr))))
	}
	for _, f := range textFields {
		if t := v.FieldByName(f).String(); t != "" {
			one(f, t)
		}
	}
	one("CallID", m.CallID)
	num := func(n int) string {
		if s.p(0.1) {
			return "00" + strconv.Itoa(n)
		}
		return strconv.Itoa(n)
	}
	one("CSeq", num(m.CSeq)+s.lws()+m.CSeqMethod)
	if m.MaxForwards > 0 || s.p(0.2) && m.Status == 0 {
		one("MaxForwards", num(m.MaxForwards))
	}
	if m.Expires > 0 || s.p(0.2) {
		one("Expires", num(m.Expires))
	}
	if m.MinExpires > 0 {
		one("MinExpires", num(m.MinExpires))
	}
	var xs []string
	for x := m.XHeader; x != nil; x = x.Next {
		c := s.colon()
		xs = append([]string{x.Name + c + string(x.Value)}, xs...)
	}
	groups = append(groups, xs)
	var body []byte
	if m.Payload != nil {
		body = m.Payload.Data()
		ct := m.Payload.ContentType()
		if ct == sdp.ContentType && s.p(0.5) {
			ct = s.caseOf(ct)
		}
		if s.p(0.3) {
			for n := s.r.Range(1, 3); n > 0; n-- {
				ct += s.sep(";") + s.r.Pick("charset", token(s.r)) + s.sep("=")
				if s.r.Bool() {
					ct += s.r.Pick("utf-8", token(s.r))
				} else {
					ct += s.quoted(plainText(s.r, 0, 10))
				}
			}
		}
		if m.Payload.ContentType() != "" {
			groups = append(groups, []string{s.name("Content-Type") + s.colon() + ct})
		}
	}
	if len(body) > 0 || !s.p(0.3) {
		groups = append(groups, []string{s.name("Content-Length") + s.colon() + num(len(body))})
	}
	var lines []string
	if s.wild == 0 {
		for _, g := range groups {
			lines = append(lines, g...)
		}
	} else {
		var left [][]string
		for _, g := range groups {
			if len(g) > 0 {
				left = append(left, g)
			}
		}
		for len(left) > 0 {
			i := s.r.IntN(len(left))
			lines = append(lines, left[i][0])
			if left[i] = left[i][1:]; len(left[i]) == 0 {
				left[i] = left[len(left)-1]
				left = left[:len(left)-1]
			}
		}
	}
	ver := fmt.Sprintf("SIP/%d.%d", m.VersionMajor, m.VersionMinor)
	start := ""
	if m.Status == 0 {
		start = m.Method + " " + s.uri(m.Request) + " " + ver
	} else {
		start = fmt.Sprintf("%s %03d %s", ver, m.Status, s.phrase(m.Phrase))
	}
	return append([]byte(start+"\r\n"+strings.Join(lines, "\r\n")+"\r\n\r\n"), body...)
}

func (s *speller) phrase(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] < 0x80 && (s.p(0.05) || strings.IndexByte(reasonS, p[i]) < 0) {
			fmt.Fprintf(&b, "%%%02X", p[i])
		} else {
			b.WriteByte(p[i])
		}
	}
	return b.String()
}

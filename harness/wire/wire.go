// Package wire reads and writes SIP text independently of gosip, for the
// oracles and the mock peers.
package wire

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"
)

type Hdr struct{ Name, Value string }

type Msg struct {
	Raw     []byte
	Method  string
	URI     string
	Version string
	Status  int
	Phrase  string
	Hdrs    []Hdr
	Body    []byte
}

var compact = map[string]string{"i": "call-id", "m": "contact", "e": "content-encoding", "l": "content-length",
	"c": "content-type", "f": "from", "s": "subject", "k": "supported", "t": "to", "v": "via", "o": "event",
	"r": "refer-to", "b": "referred-by", "u": "allow-events", "a": "accept-contact"}

func Canon(name string) string {
	name = strings.ToLower(strings.TrimSpace(name))
	if l, ok := compact[name]; ok {
		return l
	}
	return name
}

// Parse reads a message and insists on proper framing.
func Parse(raw []byte) (*Msg, error) {
	i := bytes.Index(raw, []byte("\r\n\r\n"))
	if i < 0 {
		return nil, errors.New("no end of headers")
	}
	m := &Msg{Raw: raw, Body: raw[i+4:]}
	// Line breaks inside quoted text are folding, so plain line splitting with
	// unfolding is right for them too.
	lines := strings.Split(string(raw[:i]), "\r\n")
	var un []string
	for k, l := range lines {
		if k > 0 && (strings.HasPrefix(l, " ") || strings.HasPrefix(l, "\t")) {
			un[len(un)-1] += "\r\n" + l
		} else {
			un = append(un, l)
		}
	}
	sl := un[0]
	if strings.HasPrefix(sl, "SIP/") {
		p := strings.SplitN(sl, " ", 3)
		if len(p) != 3 {
			return nil, fmt.Errorf("bad status line %q", sl)
		}
		m.Version, m.Phrase = p[0], p[2]
		s, err := strconv.Atoi(p[1])
		if err != nil || s < 100 || s > 999 {
			return nil, fmt.Errorf("bad status %q", sl)
		}
		m.Status = s
	} else {
		p := strings.Split(sl, " ")
		if len(p) != 3 || p[0] == "" || p[1] == "" {
			return nil, fmt.Errorf("bad request line %q", sl)
		}
		m.Method, m.URI, m.Version = p[0], p[1], p[2]
	}
	for _, l := range un[1:] {
		c := strings.IndexByte(l, ':')
		if c <= 0 {
			return nil, fmt.Errorf("bad header line %q", l)
		}
		m.Hdrs = append(m.Hdrs, Hdr{Canon(l[:c]), strings.Trim(l[c+1:], " \t")})
	}
	if cl := m.All("content-length"); len(cl) > 0 {
		n, err := strconv.Atoi(cl[0])
		if err != nil || n != len(m.Body) || len(cl) != 1 {
			return nil, fmt.Errorf("content length %v but %d body bytes", cl, len(m.Body))
		}
	}
	return m, nil
}

func (m *Msg) All(name string) (v []string) {
	for _, h := range m.Hdrs {
		if h.Name == name {
			v = append(v, h.Value)
		}
	}
	return
}

func (m *Msg) Get(name string) string {
	if v := m.All(name); len(v) > 0 {
		return v[0]
	}
	return ""
}

// Split splits outside of quotes and angle brackets.
func Split(s string, sep byte) (out []string) {
	q, esc, ang, st := false, false, 0, 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case esc:
			esc = false
		case q && c == '\\':
			esc = true
		case c == '"':
			q = !q
		case q:
		case c == '<':
			ang++
		case c == '>':
			ang--
		case c == sep && ang <= 0:
			out = append(out, s[st:i])
			st = i + 1
		}
	}
	return append(out, s[st:])
}

// List gives all entries of a list header, in order.
func (m *Msg) List(name string) (out []string) {
	for _, v := range m.All(name) {
		for _, e := range Split(v, ',') {
			out = append(out, strings.TrimSpace(e))
		}
	}
	return
}

type Param struct {
	Name, Value string
	HasValue    bool
}

func parseParams(parts []string) (ps []Param) {
	for _, p := range parts {
		p = strings.TrimSpace(p)
		var x Param
		if i := strings.IndexByte(p, '='); i >= 0 {
			x = Param{strings.TrimSpace(p[:i]), Unquote(strings.TrimSpace(p[i+1:])), true}
		} else {
			x = Param{Name: p}
		}
		ps = append(ps, x)
	}
	return
}

func Unquote(s string) string {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return s
	}
	s = s[1 : len(s)-1]
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// Quote writes a quoted string.
func Quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	b.WriteByte('"')
	return b.String()
}

type Addr struct {
	Display string
	URI     string
	Params  []Param
}

func ParseAddr(s string) Addr {
	var a Addr
	s = strings.TrimSpace(s)
	parts := Split(s, ';')
	head := strings.TrimSpace(parts[0])
	if i := lastAngle(head); i >= 0 {
		a.Display = Unquote(strings.TrimSpace(head[:i]))
		a.URI = strings.TrimSuffix(head[i+1:], ">")
	} else {
		a.URI = head
	}
	a.Params = parseParams(parts[1:])
	return a
}

func lastAngle(s string) int {
	q, esc := false, false
	for i := 0; i < len(s); i++ {
		switch {
		case esc:
			esc = false
		case q && s[i] == '\\':
			esc = true
		case s[i] == '"':
			q = !q
		case !q && s[i] == '<':
			return i
		}
	}
	return -1
}

func get(ps []Param, name string) (string, bool) {
	for _, p := range ps {
		if strings.EqualFold(p.Name, name) {
			return p.Value, true
		}
	}
	return "", false
}

func (a Addr) Param(name string) (string, bool) { return get(a.Params, name) }
func (a Addr) Tag() string                      { t, _ := get(a.Params, "tag"); return t }

func (m *Msg) Addr(name string) Addr { return ParseAddr(m.Get(name)) }

func (m *Msg) Addrs(name string) (out []Addr) {
	for _, e := range m.List(name) {
		out = append(out, ParseAddr(e))
	}
	return
}

type Via struct {
	Proto, HostPort string
	Host            string
	Port            int // 0 if absent
	Params          []Param
}

func (v Via) Param(name string) (string, bool) { return get(v.Params, name) }
func (v Via) Branch() string                   { b, _ := get(v.Params, "branch"); return b }

func ParseVia(s string) Via {
	parts := Split(s, ';')
	f := strings.Fields(parts[0])
	v := Via{Params: parseParams(parts[1:])}
	if len(f) > 0 {
		v.Proto = f[0]
	}
	if len(f) > 1 {
		v.HostPort = strings.Join(f[1:], "")
		v.Host, v.Port = SplitHostPort(v.HostPort)
	}
	return v
}

// SplitHostPort splits host[:port], port 0 if absent, -1 if bad.
func SplitHostPort(s string) (string, int) {
	i := strings.LastIndexByte(s, ':')
	if i < 0 || strings.HasSuffix(s, "]") {
		return strings.Trim(s, "[]"), 0
	}
	n, err := strconv.Atoi(s[i+1:])
	if err != nil {
		n = -1
	}
	return strings.Trim(s[:i], "[]"), n
}

func (m *Msg) Vias() (out []Via) {
	for _, e := range m.List("via") {
		out = append(out, ParseVia(e))
	}
	return
}

func (m *Msg) CSeq() (int, string) {
	f := strings.Fields(m.Get("cseq"))
	if len(f) != 2 {
		return -1, ""
	}
	n, err := strconv.Atoi(f[0])
	if err != nil {
		return -1, ""
	}
	return n, f[1]
}

// URIHostPort takes the host and port out of sip:user@host:port;params.
func URIHostPort(u string) (host string, port int) {
	if i := strings.IndexByte(u, ':'); i >= 0 {
		u = u[i+1:]
	}
	if i := strings.LastIndexByte(u, '@'); i >= 0 {
		u = u[i+1:]
	}
	if i := strings.IndexAny(u, ";?"); i >= 0 {
		u = u[:i]
	}
	return SplitHostPort(u)
}

// Lines joins lines with CRLF and ends the header block.
func Lines(l ...string) []byte {
	return []byte(strings.Join(l, "\r\n") + "\r\n\r\n")
}

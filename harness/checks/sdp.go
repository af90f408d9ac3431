package checks

import (
	"bytes"
	"fmt"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/jart/gosip/sdp"
	"verif/mon"
)

// rfc3551 is the static payload type table, written down independently.
var rfc3551 = map[uint8]string{0: "PCMU/8000", 3: "GSM/8000", 4: "G723/8000", 5: "DVI4/8000", 6: "DVI4/16000", 7: "LPC/8000", 8: "PCMA/8000",
	9: "G722/8000", 10: "L16/44100/2", 11: "L16/44100", 12: "QCELP/8000", 13: "CN/8000", 14: "MPA/90000", 15: "G728/8000", 16: "DVI4/11025",
	17: "DVI4/22050", 18: "G729/8000", 25: "CelB/90000", 26: "JPEG/90000", 28: "nv/90000", 31: "H261/90000", 32: "MPV/90000", 33: "MP2T/90000", 34: "H263/90000"}

func staticCodec(pt uint8) (c sdp.Codec, ok bool) {
	s, ok := rfc3551[pt]
	if !ok {
		return c, false
	}
	t := strings.Split(s, "/")
	c.PT, c.Name = pt, t[0]
	c.Rate, _ = strconv.Atoi(t[1])
	if len(t) > 2 {
		c.Param = t[2]
	}
	return c, true
}

func family(a string) string {
	if strings.Contains(a, ":") {
		return "IP6"
	}
	return "IP4"
}

// sdpLines spells a description line by line. The lines of the result may be
// reordered within what the returned groups allow: group 0 is the session
// level, 1 belongs to audio, 2 to video.
func sdpLines(r *mon.Rand, s *sdp.SDP) (groups [3][]string) {
	groups[0] = append(groups[0],
		fmt.Sprintf("o=%s %s %s IN %s %s", s.Origin.User, s.Origin.ID, s.Origin.Version, family(s.Origin.Addr), s.Origin.Addr),
		"s="+s.Session, "t="+s.Time, fmt.Sprintf("c=IN %s %s", family(s.Addr), s.Addr))
	for i, m := range []*sdp.Media{s.Audio, s.Video} {
		if m == nil {
			continue
		}
		l := fmt.Sprintf("m=%s %d", []string{"audio", "video"}[i], m.Port)
		if r.P(0.1) {
			l += "/2"
		}
		l += " " + m.Proto
		var as []string
		for _, c := range m.Codecs {
			l += fmt.Sprintf(" %d", c.PT)
			st, ok := staticCodec(c.PT)
			st.Fmtp = c.Fmtp
			if !ok || st != c || r.Bool() {
				a := fmt.Sprintf("a=rtpmap:%d %s/%d", c.PT, c.Name, c.Rate)
				if c.Param != "" {
					a += "/" + c.Param
				}
				as = append(as, a)
			}
			if c.Fmtp != "" {
				as = append(as, fmt.Sprintf("a=fmtp:%d %s", c.PT, c.Fmtp))
			}
		}
		r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
		groups[i+1] = append([]string{l}, as...)
	}
	for _, a := range s.Attrs {
		l := "a=" + a[0]
		if a[1] != "" {
			l += ":" + a[1]
		}
		groups[0] = append(groups[0], l)
	}
	for _, o := range s.Other {
		groups[0] = append(groups[0], o[0]+"="+o[1])
	}
	if s.Ptime > 0 {
		groups[0] = append(groups[0], fmt.Sprintf("a=ptime:%d", s.Ptime))
	}
	switch {
	case s.SendOnly:
		groups[0] = append(groups[0], "a=sendonly")
	case s.RecvOnly:
		groups[0] = append(groups[0], "a=recvonly")
	case r.Bool():
		groups[0] = append(groups[0], "a=sendrecv")
	}
	return
}

// merge shuffles lists into one, keeping the relative order within the lines
// for which ordered holds.
func merge(r *mon.Rand, all []string, ordered func(string) int) []string {
	out := append([]string{}, all...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	// Restore the order of the ordered classes in the slots they landed in.
	queue := map[int][]string{}
	for _, l := range all {
		if k := ordered(l); k > 0 {
			queue[k] = append(queue[k], l)
		}
	}
	for i, l := range out {
		if k := ordered(l); k > 0 {
			out[i] = queue[k][0]
			queue[k] = queue[k][1:]
		}
	}
	return out
}

// sdpOrder classes lines whose relative order is content: attributes and
// other lines.
func sdpOrder(l string) int {
	switch {
	case strings.HasPrefix(l, "a=rtpmap:"), strings.HasPrefix(l, "a=fmtp:"), strings.HasPrefix(l, "a=ptime:"), l == "a=sendrecv", l == "a=sendonly", l == "a=recvonly":
		return 0
	case strings.HasPrefix(l, "a="):
		return 1
	case strings.IndexByte("osctm", l[0]) >= 0:
		return 0
	}
	return 2
}

func sdpText(lines []string) string { return "v=0\r\n" + strings.Join(lines, "\r\n") + "\r\n" }

func sharesPT(s *sdp.SDP) bool {
	if s.Audio == nil || s.Video == nil {
		return false
	}
	for _, a := range s.Audio.Codecs {
		for _, v := range s.Video.Codecs {
			if a.PT == v.PT {
				return true
			}
		}
	}
	return false
}

// genSDP2 also makes descriptions whose streams use the same payload types.
func genSDP2(r *mon.Rand) *sdp.SDP {
	s := genSDP(r)
	if s.Audio != nil && s.Video != nil && r.Bool() {
		s.Video = genMedia(r, map[uint8]bool{})
		if r.Bool() {
			s.Video.Codecs[0].PT = s.Audio.Codecs[0].PT
		}
		seen := map[uint8]bool{}
		var cs []sdp.Codec
		for _, c := range s.Video.Codecs {
			if !seen[c.PT] {
				seen[c.PT] = true
				cs = append(cs, c)
			}
		}
		s.Video.Codecs = cs
	}
	return s
}

// crossed lays a description out in the usual order, with mappings and
// settings at the session level and under the other stream that say something
// else about payload types a stream has a mapping and settings of its own for:
// its own are what counts.
func crossed(r *mon.Rand, s *sdp.SDP, g [3][]string) []string {
	lines := append([]string{}, g[0]...)
	other := func(own []string, foreign *sdp.Media) (l []string) {
		for _, o := range own {
			var pt int
			kind := "rtpmap"
			if n, _ := fmt.Sscanf(o, "a=rtpmap:%d ", &pt); n != 1 {
				kind = "fmtp"
				if n, _ := fmt.Sscanf(o, "a=fmtp:%d ", &pt); n != 1 {
					continue
				}
			}
			listed := false
			if foreign != nil {
				for _, k := range foreign.Codecs {
					listed = listed || int(k.PT) == pt
				}
			}
			if listed || r.P(0.4) {
				continue
			}
			if kind == "rtpmap" {
				l = append(l, fmt.Sprintf("a=rtpmap:%d %s/%d", pt, r.Pick("other", "PCMU", "x"), []int{8000, 90000}[r.IntN(2)]))
			} else {
				l = append(l, fmt.Sprintf("a=fmtp:%d %s", pt, r.Pick("other=1", "0-15")))
			}
		}
		return
	}
	lines = append(append(lines, other(g[1], s.Video)...), other(g[2], s.Audio)...)
	av := [][]string{g[1], g[2]}
	if s.Audio != nil && s.Video != nil {
		av[0] = append(append([]string{}, g[1]...), other(g[2], s.Audio)...)
		av[1] = append(append([]string{}, g[2]...), other(g[1], s.Video)...)
	}
	if r.Bool() {
		av[0], av[1] = av[1], av[0]
	}
	return append(append(lines, av[0]...), av[1]...)
}

func sdpShape(s *sdp.SDP) string {
	m := func(m *sdp.Media) string {
		if m == nil {
			return "-"
		}
		p := ""
		for _, c := range m.Codecs {
			switch {
			case c.PT >= 96:
				p += "d"
			case c.Fmtp != "":
				p += "f"
			default:
				p += "s"
			}
		}
		return p
	}
	return fmt.Sprintf("%s|%s|%v%v|%v|%d|%d|%s%s", m(s.Audio), m(s.Video), s.SendOnly, s.RecvOnly, s.Ptime > 0, len(s.Attrs), len(s.Other), family(s.Addr), family(s.Origin.Addr))
}

func checkSDPTotal(c *mon.C, in, kind string) {
	c.Note(fmt.Sprintf("sdp %.2000q", in))
	t0 := time.Now()
	s, err := sdp.Parse(in)
	if el := time.Since(t0); el > 10*time.Second {
		c.Failf("slow", "parsing %d bytes took %v", len(in), el)
	}
	c.Eval(1)
	switch {
	case (s == nil) == (err == nil):
		c.Failf("neither-both", "Parse(%q) returned %v, %v", in, s, err)
	case err != nil:
		if err.Error() == "" {
			c.Failf("empty-error", "Parse(%q)", in)
		}
		c.Count("refused", 1)
		c.Seen(kind + err.Error())
	default:
		c.Count("accepted", 1)
		c.Seen(kind + sdpShape(s))
		if strings.TrimSpace(s.Addr) == "" {
			c.Failf("no-address", "Parse(%q) accepted a description with connection address %q", in, s.Addr)
		}
		if s.Audio == nil && s.Video == nil {
			c.Failf("no-media", "Parse(%q) accepted a description without audio and video", in)
		}
		for _, m := range []*sdp.Media{s.Audio, s.Video} {
			if m != nil {
				for _, k := range m.Codecs {
					if k.Name == "" {
						c.Failf("nameless", "Parse(%q) accepted codec %d without a name", in, k.PT)
					}
				}
			}
		}
		out := s.String()
		if s.Origin.ID != "" && !bytes.Equal([]byte(out), s.Data()) || s.ContentType() != "application/sdp" {
			c.Failf("payload", "Data() or ContentType() disagree with String(): %q", out)
		}
		if _, err := sdp.Parse(out); err != nil {
			c.Failf("rerender", "Parse(%q) gave a description whose rendering %q is refused: %v", in, out, err)
		}
	}
}

var sdpFragments = []string{"v=0\r\n", "o=- 1 1 IN IP4 1.2.3.4", "o=", "o=a b c IN IP6 ::1", "s=-", "s=", "t=0 0", "c=IN IP4 1.2.3.4", "c=IN IP4 ", "c=IN IP6  ", "c=", "c=IN IP4 1.2.3.4/127",
	"m=audio 1 RTP/AVP 0", "m=audio ", "m=audio", "m=video 2 RTP/AVP 34 96", "m=audio 65536 x 0", "m=text 1 x 0", "m=audio 1/2 x 1", "a=rtpmap:0 PCMU/8000", "a=rtpmap:96 /8000", "a=rtpmap:96 x", "a=rtpmap:96 x/y",
	"a=rtpmap:96 x/8000/2/3", "a=fmtp:0 x", "a=fmtp:", "a=ptime:20", "a=ptime:-1", "a=ptime:x", "a=ptime:99999999999999999999", "a=sendonly", "a=recvonly", "a=sendrecv", "a=inactive", "a=:x", "a=x", "a=x:", "a=", "b=AS:1", "=", "==", "x", "x=", "\r\n", "\r", "\n",
	" ", "/", ":", "0", "255", "256", "m=", "\x00", "\xff", "é"}

func init() {
	mon.Register(&mon.Check{
		ID: "D01",
		Rule: "Inputs: random bytes and random lines behind v=0, concatenated SDP fragments, and valid descriptions damaged by line drops, swaps, duplications, splices and byte mutations, up to 60 KB. " +
			"Every accepted description is inspected, rendered and parsed again. Distinct = different accepted shape or error text per input kind.",
		Assumptions: []string{"the watchdog limit of 30 s per case is far above any honest parse"},
		Run: func(x *mon.Ctx) {
			x.Run("bytes", x.N(4000, 80000), 0, func(c *mon.C) {
				for k := 0; k < 10; k++ {
					checkSDPTotal(c, string(c.R.Bytes(c.R.Range(0, 60))), "bytes")
					var b strings.Builder
					b.WriteString("v=0\r\n")
					for n := c.R.IntN(8); n > 0; n-- {
						b.WriteString(str(c.R, "vosctmabk=", 1, 2))
						b.Write(c.R.Bytes(c.R.IntN(20)))
						b.WriteString("\r\n")
					}
					checkSDPTotal(c, b.String(), "lines")
				}
			})
			x.Run("fragments", x.N(6000, 200000), 0, func(c *mon.C) {
				for k := 0; k < 10; k++ {
					var b strings.Builder
					if c.R.P(0.9) {
						b.WriteString("v=0\r\n")
					}
					if c.R.P(0.7) {
						b.WriteString("o=- 1 1 IN IP4 1.2.3.4\r\nc=IN IP4 1.2.3.4\r\n")
					}
					for n := c.R.IntN(12); n > 0; n-- {
						b.WriteString(sdpFragments[c.R.IntN(len(sdpFragments))])
						if c.R.P(0.8) {
							b.WriteString("\r\n")
						}
					}
					checkSDPTotal(c, b.String(), "fragments")
				}
			})
			x.Run("mutants", x.N(8000, 200000), 0, func(c *mon.C) {
				a, b := genSDP2(c.R).String(), genSDP2(c.R).String()
				checkSDPTotal(c, a, "valid")
				for k := 0; k < 10; k++ {
					m := mutate(c.R, []byte(a), []byte(b))
					checkSDPTotal(c, string(m), "mutant")
				}
				// One token replaced.
				t := strings.Split(a, " ")
				for k := 0; k < 5; k++ {
					u := append([]string{}, t...)
					u[c.R.IntN(len(u))] = c.R.Pick("", "0", "-1", "256", "65536", "IP6", "a:b", "/", "\t", "\u00a0", "\v", "99999999999999999999", "x")
					checkSDPTotal(c, strings.Join(u, " "), "token")
				}
			})
			// Addresses of nothing but white space are blank.
			x.Run("blank", x.N(300, 3000), 0, func(c *mon.C) {
				blank := ""
				for n := c.R.Range(0, 4); n > 0; n-- {
					blank += c.R.Pick("\t", "\t", "\v", "\f", "\r", "\n", "\u0085", "\u00a0", "\u2003", "\u2028", "\u3000", " ")
				}
				for _, l := range []string{"c=IN IP4 " + blank, "c=IN IP6 " + blank, "c=IN IP4 " + blank + "/127", "c=IN " + blank + " 1.2.3.4", "c=" + blank} {
					rest := []string{"o=- 1 1 IN IP4 1.2.3.4", "s=-", "t=0 0", "m=audio 1 RTP/AVP 0", l}
					c.R.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
					checkSDPTotal(c, sdpText(rest), "blank")
				}
				c.Seen(fmt.Sprintf("blank %q", blank))
			})
			x.Run("large", x.N(60, 600), 0, func(c *mon.C) {
				var b strings.Builder
				b.WriteString("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\nc=IN IP4 1.2.3.4\r\nm=audio 1 RTP/AVP 0")
				size := c.R.Range(1000, 60000)
				for cut := c.R.Range(0, size); b.Len() < cut; {
					b.WriteString(c.R.Pick(" 0", " 96", " 101", " 18"))
				}
				b.WriteString("\r\na=rtpmap:96 x/8000\r\na=rtpmap:101 y/8000\r\n")
				unit := c.R.Pick("a=x\r\n", "a=rtpmap:5 x/1\r\n", "a=fmtp:96 x\r\n", "\r\n", "m=video 1 x 0\r\n", "k=v\r\n", "s=x\r\n", "=\r\n", "a=:\r\n")
				for b.Len() < size {
					b.WriteString(unit)
				}
				checkSDPTotal(c, b.String(), "large")
			})
		},
	})

	// ---------------------------------------------------------------- D02
	mon.Register(&mon.Check{
		ID: "D02",
		Rule: "Random descriptions are written line by line by an independent speller (lines in any order, mappings of well-known types given or omitted, extra streams of other kinds, port counts) and parsed: every field must equal what the lines say; " +
			"standard codecs come from an independent RFC 3551 table. Then one defect from a list of some 50 is planted in the text, which must be refused. Distinct = different shape, or different defect.",
		Run: func(x *mon.Ctx) {
			x.Run("fidelity", x.N(20000, 400000), 0, func(c *mon.C) {
				s := genSDP2(c.R)
				// Use what the table says for well-known types, unless the
				// description maps them itself.
				g := sdpLines(c.R, s)
				var lines []string
				switch {
				case sharesPT(s):
					// The mappings must stay with their stream.
					lines = merge(c.R, g[0], sdpOrder)
					av := [][]string{g[1], g[2]}
					if c.R.Bool() {
						av[0], av[1] = av[1], av[0]
					}
					lines = append(append(lines, av[0]...), av[1]...)
				case c.R.P(0.3): // the usual layout
					lines = append(append(append(lines, g[0]...), g[1]...), g[2]...)
				default:
					lines = merge(c.R, append(append(append([]string{}, g[0]...), g[1]...), g[2]...), sdpOrder)
				}
				if c.R.P(0.2) {
					lines = crossed(c.R, s, g)
				}
				if c.R.P(0.2) && !sharesPT(s) {
					lines = append(lines, "m=application 9 DTLS/SCTP 5000")
				}
				if c.R.P(0.2) {
					lines = append(lines, "")
				}
				in := sdpText(lines)
				got, err := sdp.Parse(in)
				c.Eval(1)
				if err != nil {
					c.Failf("refused", "a well-formed description was refused: %v\n%q", err, in)
					return
				}
				if w, g := dump(s), dump(got); w != g {
					c.Failf("wrong-content", "fields differ from what the lines say:\n%s\ndescription: %q", diff(w, g), in)
				}
				c.Count("fields compared", int64(strings.Count(dump(s), "\n")))
				c.Seen(sdpShape(s))
				c.Sample("description", "%.600q", in)
			})
			x.Run("static", 1, 1, func(c *mon.C) {
				for pt := 0; pt < 256; pt++ {
					in := fmt.Sprintf("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=%s 4000 RTP/AVP %d\r\n", c.R.Pick("audio", "video"), pt)
					got, err := sdp.Parse(in)
					want, ok := staticCodec(uint8(pt))
					c.Eval(1)
					c.Seen(fmt.Sprint("static", pt))
					if !ok {
						if err == nil && pt >= 96 {
							c.Failf("unmapped", "dynamic payload type %d without mapping accepted: %s", pt, dump(got))
						}
						continue
					}
					if err != nil {
						c.Failf("static-refused", "well-known payload type %d refused: %v", pt, err)
						continue
					}
					m := got.Audio
					if m == nil {
						m = got.Video
					}
					if len(m.Codecs) != 1 || m.Codecs[0] != want {
						c.Failf("static-wrong", "payload type %d became %+v, the standard says %+v", pt, m.Codecs, want)
					}
				}
			})
			x.Run("defects", x.N(15000, 200000), 0, func(c *mon.C) {
				s := genSDP(c.R)
				g := sdpLines(c.R, s)
				lines := append(append(append([]string{}, g[0]...), g[1]...), g[2]...)
				name := plantSDP(c.R, lines)
				if name == "" {
					return
				}
				var kept []string
				for _, l := range lines {
					if l != "" {
						kept = append(kept, l)
					}
				}
				if c.R.Bool() {
					kept = merge(c.R, kept, sdpOrder)
				}
				in := sdpText(kept)
				if name == "no v" {
					in = in[5:]
				}
				if name == "bad v" {
					in = c.R.Pick("v=1", "V=0", "v=", "v=00", " v=0", "v=0 ") + in[3:]
				}
				c.Eval(1)
				c.Seen("defect " + name)
				c.Count("defects planted", 1)
				if got, err := sdp.Parse(in); err == nil {
					c.Failf("accepted", "description with defect %q was accepted: %q\n%s", name, in, dump(got))
				}
			})
		},
	})

	// ---------------------------------------------------------------- D03
	mon.Register(&mon.Check{
		ID: "D03",
		Rule: "Random descriptions as values (either or both streams, shared payload types, both address families mixed, attributes, other lines) are rendered; the text is read by an independent line reader and by the parser, and both must give back every field. " +
			"Descriptions from the constructor are compared with its arguments. Origin user, id or version, session name, time or protocol left out have to come out as their defaults. Distinct = different shape.",
		Run: func(x *mon.Ctx) {
			x.Run("roundtrip", x.N(30000, 600000), 0, func(c *mon.C) {
				s := genSDP2(c.R)
				want := dump(s)
				out := s.String()
				c.Eval(1)
				if d := dump(s); d != want {
					c.Failf("render-modifies", "rendering changed the description:\n%s", diff(want, d))
				}
				got, err := sdp.Parse(out)
				if err != nil {
					c.Failf("unparseable", "the rendering is refused: %v\n%q", err, out)
					return
				}
				if g := dump(got); g != want {
					c.Failf("lossy", "fields lost in the round trip:\n%s\nrendered: %q", diff(want, g), out)
					return
				}
				if again := got.String(); again != out {
					c.Failf("unstable", "second rendering differs:\n%q\n%q", out, again)
				}
				ind, err := readSDP(out)
				if err != nil {
					c.Failf("not-sdp", "the rendering is not a session description: %v\n%q", err, out)
					return
				}
				if g := dump(ind); g != want {
					c.Failf("wrong-text", "the rendered text says something else:\n%s\nrendered: %q", diff(want, g), out)
				}
				c.Seen(sdpShape(s))
				c.Sample("rendered", "%.600q", out)
			})
			// What's left out comes out as its default, and nothing else moves.
			x.Run("defaults", x.N(6000, 100000), 0, func(c *mon.C) {
				s := genSDP2(c.R)
				var out []string
				drop := func(what string, field *string) {
					if c.R.Bool() {
						*field = ""
						out = append(out, what)
					}
				}
				drop("user", &s.Origin.User)
				drop("id", &s.Origin.ID)
				drop("version", &s.Origin.Version)
				drop("session", &s.Session)
				drop("time", &s.Time)
				if s.Audio != nil {
					drop("proto", &s.Audio.Proto)
				}
				if s.Video != nil {
					drop("proto", &s.Video.Proto)
				}
				text := s.String()
				c.Eval(1)
				got, err := sdp.Parse(text)
				if err != nil {
					c.Failf("unparseable", "without %v the rendering is refused: %v\n%q", out, err, text)
					return
				}
				if strings.ContainsAny(got.Origin.ID, " \t\r\n") || got.Origin.ID == "" || got.Session == "" {
					c.Failf("no-default", "without %v the rendering has origin id %q and session name %q\n%q", out, got.Origin.ID, got.Session, text)
					return
				}
				fill := func(field *string, def string) {
					if *field == "" {
						*field = def
					}
				}
				fill(&s.Origin.User, "-")
				fill(&s.Origin.ID, got.Origin.ID)
				fill(&s.Origin.Version, s.Origin.ID)
				fill(&s.Session, got.Session)
				fill(&s.Time, "0 0")
				if s.Audio != nil {
					fill(&s.Audio.Proto, "RTP/AVP")
				}
				if s.Video != nil {
					fill(&s.Video.Proto, "RTP/AVP")
				}
				if want, g := dump(s), dump(got); g != want {
					c.Failf("default-wrong", "what was left out (%v) or something else comes out wrong:\n%s\nrendered: %q", out, diff(want, g), text)
				}
				c.Seen(fmt.Sprint("defaults ", out))
				c.Count("fields left out", int64(len(out)))
			})
			x.Run("constructor", x.N(5000, 50000), 0, func(c *mon.C) {
				ip := net.ParseIP(ipAny(c.R))
				if ip4 := ip.To4(); ip4 != nil && c.R.Bool() {
					ip = ip4
				}
				addr := &net.UDPAddr{IP: ip, Port: c.R.IntN(65536)}
				used := map[uint8]bool{}
				codecs := genMedia(c.R, used).Codecs
				if c.R.P(0.2) {
					codecs = []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec}
				}
				keep := append([]sdp.Codec{}, codecs...)
				s := sdp.New(addr, codecs...)
				codecs[0].Name += "changed" // the caller goes on using its slice
				c.Eval(1)
				back, err := sdp.Parse(s.String())
				if err != nil {
					c.Failf("unparseable", "New(%v) renders to %q, which is refused: %v", addr, s.String(), err)
					return
				}
				for i, d := range []*sdp.SDP{s, back} {
					if d.Addr != ip.String() || d.Origin.Addr != ip.String() || d.Audio == nil || d.Video != nil || int(d.Audio.Port) != addr.Port ||
						d.Audio.Proto != "RTP/AVP" || fmt.Sprint(d.Audio.Codecs) != fmt.Sprint(keep) || d.SendOnly || d.RecvOnly || d.Origin.ID == "" || d.Origin.Version != d.Origin.ID {
						c.Failf("constructor", "New(%v, %v) offers %s (parsed back: %v)", addr, keep, dump(d), i == 1)
					}
				}
				ind, err := readSDP(s.String())
				if err != nil || ind.Addr != ip.String() || int(ind.Audio.Port) != addr.Port {
					c.Failf("constructor-text", "New(%v) renders to %q (%v)", addr, s.String(), err)
				}
				c.Seen(fmt.Sprint("new", family(ip.String()), len(keep)))
			})
		},
	})
}

// readSDP reads a rendered description without gosip's parser. It insists on
// the order of RFC 4566 for the lines gosip has fields for.
func readSDP(text string) (*sdp.SDP, error) {
	if !strings.HasSuffix(text, "\r\n") {
		return nil, fmt.Errorf("last line not terminated")
	}
	lines := strings.Split(strings.TrimSuffix(text, "\r\n"), "\r\n")
	s := &sdp.SDP{}
	count := map[byte]int{}
	var cur *sdp.Media
	for i, l := range lines {
		if len(l) < 3 || l[1] != '=' {
			return nil, fmt.Errorf("bad line %q", l)
		}
		v := l[2:]
		switch l[0] {
		case 'v', 'o', 's', 'c', 't':
			count[l[0]]++
			if i != strings.IndexByte("vosct", l[0]) {
				return nil, fmt.Errorf("line %q at position %d", l, i)
			}
		}
		switch l[0] {
		case 'v':
			if v != "0" {
				return nil, fmt.Errorf("version %q", v)
			}
		case 'o':
			f := strings.Split(v, " ")
			if len(f) != 6 || f[3] != "IN" || f[4] != family(f[5]) {
				return nil, fmt.Errorf("origin %q", v)
			}
			s.Origin = sdp.Origin{User: f[0], ID: f[1], Version: f[2], Addr: f[5]}
		case 's':
			s.Session = v
		case 'c':
			f := strings.Split(v, " ")
			if len(f) != 3 || f[0] != "IN" || f[1] != family(f[2]) {
				return nil, fmt.Errorf("connection %q", v)
			}
			s.Addr = f[2]
		case 't':
			s.Time = v
		case 'm':
			f := strings.Split(v, " ")
			if len(f) < 4 {
				return nil, fmt.Errorf("media %q", v)
			}
			cur = &sdp.Media{Proto: f[2]}
			p, err := strconv.ParseUint(f[1], 10, 16)
			if err != nil {
				return nil, err
			}
			cur.Port = uint16(p)
			for _, t := range f[3:] {
				pt, err := strconv.ParseUint(t, 10, 8)
				if err != nil {
					return nil, err
				}
				cur.Codecs = append(cur.Codecs, sdp.Codec{PT: uint8(pt)})
			}
			switch {
			case f[0] == "audio" && s.Audio == nil:
				s.Audio = cur
			case f[0] == "video" && s.Video == nil:
				s.Video = cur
			default:
				return nil, fmt.Errorf("media %q", v)
			}
		case 'a':
			n, val, _ := strings.Cut(v, ":")
			switch {
			case n == "rtpmap" || n == "fmtp":
				pts, rest, _ := strings.Cut(val, " ")
				pt, err := strconv.ParseUint(pts, 10, 8)
				if err != nil || cur == nil {
					return nil, fmt.Errorf("attribute %q", l)
				}
				found := false
				for k := range cur.Codecs {
					c := &cur.Codecs[k]
					if c.PT != uint8(pt) || n == "rtpmap" && c.Name != "" || n == "fmtp" && c.Fmtp != "" {
						continue
					}
					found = true
					if n == "fmtp" {
						c.Fmtp = rest
						break
					}
					f := strings.Split(rest, "/")
					if len(f) < 2 || len(f) > 3 {
						return nil, fmt.Errorf("mapping %q", l)
					}
					c.Name = f[0]
					if c.Rate, err = strconv.Atoi(f[1]); err != nil {
						return nil, err
					}
					if len(f) > 2 {
						c.Param = f[2]
					}
					break
				}
				if !found {
					return nil, fmt.Errorf("stray %q", l)
				}
			case n == "ptime":
				p, err := strconv.Atoi(val)
				if err != nil || s.Ptime != 0 {
					return nil, fmt.Errorf("ptime %q", l)
				}
				s.Ptime = p
			case v == "sendrecv":
				count['d']++
			case v == "sendonly":
				s.SendOnly = true
				count['d']++
			case v == "recvonly":
				s.RecvOnly = true
				count['d']++
			default:
				s.Attrs = append(s.Attrs, [2]string{n, val})
			}
		default:
			s.Other = append(s.Other, [2]string{l[:1], v})
		}
	}
	for _, k := range []byte("vosctd") {
		if count[k] != 1 {
			return nil, fmt.Errorf("%d %c lines", count[k], k)
		}
	}
	for _, m := range []*sdp.Media{s.Audio, s.Video} {
		if m != nil {
			for _, c := range m.Codecs {
				if c.Name == "" {
					return nil, fmt.Errorf("payload type %d without mapping", c.PT)
				}
			}
		}
	}
	return s, nil
}

// plantSDP makes one line of a description wrong (or blank, which means it is
// dropped) and names the defect.
func plantSDP(r *mon.Rand, lines []string) string {
	find := func(p string) int {
		var at []int
		for i, l := range lines {
			if strings.HasPrefix(l, p) {
				at = append(at, i)
			}
		}
		if at == nil {
			return -1
		}
		return at[r.IntN(len(at))]
	}
	badNum := func(max string) string {
		return r.Pick("", "x", "-1", max, "99999999999999999999", "0x10", "1x", " ", "1.5", "１")
	}
	switch r.IntN(16) {
	case 0:
		lines[find("o=")] = ""
		return "no o"
	case 1:
		lines[find("c=")] = ""
		return "no c"
	case 2:
		for i := find("m="); i >= 0; i = find("m=") {
			lines[i] = ""
		}
		return "no m"
	case 3:
		return "no v"
	case 4:
		return "bad v"
	case 5:
		i := find("o=")
		f := strings.Split(lines[i], " ")
		k := r.IntN(6)
		f = append(f[:k:k], f[k+1:]...)
		if k == 0 {
			f[0] = "o=" + f[0]
		}
		lines[i] = strings.Join(f, " ")
		return "o short"
	case 6:
		i := find("o=")
		lines[i] += " x"
		return "o long"
	case 7:
		i := find("o=")
		f := strings.Split(lines[i], " ")
		k := r.Range(3, 5)
		f[k] = []string{r.Pick("ATM", "in", "", "INX"), r.Pick("IP5", "ip4", "", "IP", "IP44"), r.Pick("224.1.1.1/127", "", "\t", "\u00a0")}[k-3]
		lines[i] = strings.Join(f, " ")
		return fmt.Sprint("o token ", k, f[k])
	case 8:
		i := find("c=")
		f := strings.Split(lines[i], " ")
		k := r.IntN(3)
		if r.Bool() {
			lines[i] = r.Pick(strings.Join(f[:2], " "), lines[i]+" x", "c="+f[2], lines[i]+" ", "c=IN  "+f[2])
			return "c count"
		}
		f[k] = []string{"c=" + r.Pick("ATM", "in", "", "INX"), r.Pick("IP5", "ip4", "", "IP", "IP44"), r.Pick("224.1.1.1/127", "", "\t", "\u00a0")}[k]
		lines[i] = strings.Join(f, " ")
		return fmt.Sprint("c token ", k, f[k])
	case 9, 10:
		i := find("m=")
		f := strings.Split(lines[i], " ")
		f[1] = badNum("65536")
		lines[i] = strings.Join(f, " ")
		return "m port " + f[1]
	case 11:
		i := find("m=")
		f := strings.Split(lines[i], " ")
		f[3+r.IntN(len(f)-3)] = badNum("256")
		lines[i] = strings.Join(f, " ")
		return "m pt"
	case 12:
		i := find("m=")
		f := strings.Split(lines[i], " ")
		lines[i] = strings.Join(f[:r.Range(2, 3)], " ")
		return "m short"
	case 13, 14:
		i := find("a=rtpmap:")
		if i < 0 {
			return ""
		}
		pt, rest, _ := strings.Cut(lines[i], " ")
		f := strings.Split(rest, "/")
		switch r.IntN(3) {
		case 0:
			lines[i] = pt + " " + f[0]
			return "rtpmap without rate"
		case 1:
			lines[i] = pt + " " + f[0] + "/" + r.Pick("", "x", "8000x", "8e3", " 8000", "99999999999999999999")
			return "rtpmap rate"
		default:
			lines[i] = pt + " " + f[0] + ":" + f[1]
			return "rtpmap separator"
		}
	default:
		for i, l := range lines {
			var pt int
			if n, _ := fmt.Sscanf(l, "a=rtpmap:%d ", &pt); n == 1 && pt >= 96 {
				lines[i] = ""
				return "dynamic without rtpmap"
			}
		}
		return ""
	}
}

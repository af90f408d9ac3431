package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"net"
	"sync/atomic"
	"time"

	"github.com/jart/gosip/rtp"
	"verif/mon"
)

// rtpPkt is a packet as RFC 3550 lays it out.
type rtpPkt struct {
	v        int
	pad, ext bool
	cc       int
	mark     bool
	pt       int
	seq      uint16
	ts, ssrc uint32
	body     []byte
	raw      []byte
}

func readRTP(b []byte) (p rtpPkt, ok bool) {
	if len(b) < 12 {
		return p, false
	}
	return rtpPkt{int(b[0]) / 64, b[0]&32 != 0, b[0]&16 != 0, int(b[0] & 15), b[1] >= 128, int(b[1] & 127),
		binary.BigEndian.Uint16(b[2:]), binary.BigEndian.Uint32(b[4:]), binary.BigEndian.Uint32(b[8:]), b[12:], b}, true
}

func (p rtpPkt) bytes() []byte {
	b := make([]byte, 12, 12+len(p.body))
	b[0] = byte(p.v*64 + p.cc)
	if p.pad {
		b[0] |= 32
	}
	if p.ext {
		b[0] |= 16
	}
	b[1] = byte(p.pt)
	if p.mark {
		b[1] |= 128
	}
	binary.BigEndian.PutUint16(b[2:], p.seq)
	binary.BigEndian.PutUint32(b[4:], p.ts)
	binary.BigEndian.PutUint32(b[8:], p.ssrc)
	return append(b, p.body...)
}

func (p rtpPkt) String() string {
	return fmt.Sprintf("{v%d pad=%v ext=%v cc=%d mark=%v pt=%d seq=%d ts=%d ssrc=%08x %d bytes}", p.v, p.pad, p.ext, p.cc, p.mark, p.pt, p.seq, p.ts, p.ssrc, len(p.body))
}

const dtmfChars = "0123456789*#ABCD!abcd"

func digitCode(ch byte) int {
	switch {
	case ch >= '0' && ch <= '9':
		return int(ch - '0')
	case ch == '*':
		return 10
	case ch == '#':
		return 11
	case ch >= 'A' && ch <= 'D':
		return int(ch-'A') + 12
	case ch >= 'a' && ch <= 'd':
		return int(ch-'a') + 12
	case ch == '!':
		return 16
	}
	return -1
}

func edge32(r *mon.Rand) uint32 {
	switch r.IntN(4) {
	case 0:
		return []uint32{0, 1, 1<<32 - 1, 1 << 31, 1<<31 - 1, 0xff00ff00, 0x01020304}[r.IntN(7)]
	case 1:
		return uint32(1) << r.IntN(32)
	}
	return uint32(r.Uint64())
}

func checkR01(x *mon.Ctx) {
	// every first byte, with every second byte
	x.Run("first-byte", 256, 0, func(c *mon.C) {
		for b1 := 0; b1 < 256; b1++ {
			n := []int{12, 13, 172, 12 + c.R.IntN(100)}[c.R.IntN(4)]
			b := c.R.Bytes(n)
			b[0], b[1] = byte(c.ID.Index), byte(b1)
			in := append([]byte{}, b...)
			want, _ := readRTP(in)
			var h rtp.Header
			err := h.Read(b)
			c.Eval(1)
			if !bytes.Equal(b, in) {
				c.Failf("read-modifies", "Read changed its input % x -> % x", in, b)
			}
			if bad := want.v != 2 || want.ext; bad != (err != nil) {
				c.Failf("read-accept", "Read(% x): error %v", in[:12], err)
				return
			}
			if err == nil {
				if got := (rtp.Header{Pad: want.pad, Mark: want.mark, PT: uint8(want.pt), Seq: want.seq, TS: want.ts, Ssrc: want.ssrc}); h != got {
					c.Failf("read-fields", "Read(% x) = %+v, want %+v", in[:12], h, got)
					return
				}
			}
			x.Seen(fmt.Sprintf("first %02x second %02x", c.ID.Index, b1))
		}
	})
	x.Run("short", 12, 0, func(c *mon.C) {
		for k := 0; k < 500; k++ {
			// the backing array holds a full header, only the slice is short
			b := c.R.Bytes(64)
			b[0] = 0x80
			c.Eval(1)
			var h rtp.Header
			if err := h.Read(b[:c.ID.Index]); err == nil {
				c.Failf("read-short", "Read accepts %d bytes: % x", c.ID.Index, b[:c.ID.Index])
				return
			}
		}
	})
	x.Run("header", x.N(20000, 400000), 0, func(c *mon.C) {
		h := rtp.Header{Pad: c.R.Bool(), Mark: c.R.Bool(), PT: uint8(c.R.IntN(128)), Seq: uint16(edge32(c.R)), TS: edge32(c.R), Ssrc: edge32(c.R)}
		h0 := h
		pre := c.R.Bytes(c.R.IntN(20))
		buf := make([]byte, len(pre), len(pre)+c.R.IntN(40))
		copy(buf, pre)
		out := h.Write(buf)
		want := append(append([]byte{}, pre...), rtpPkt{v: 2, pad: h.Pad, mark: h.Mark, pt: int(h.PT), seq: h.Seq, ts: h.TS, ssrc: h.Ssrc}.bytes()...)
		if !bytes.Equal(out, want) {
			c.Failf("write-layout", "%+v written after % x: % x, want % x", h, pre, out, want)
			return
		}
		if h != h0 {
			c.Failf("write-modifies", "Write changed the header %+v -> %+v", h0, h)
		}
		back := rtp.Header{Pad: c.R.Bool(), Mark: c.R.Bool(), PT: 77, Seq: 77, TS: 77, Ssrc: 77}
		if err := back.Read(out[len(pre):]); err != nil || back != h {
			c.Failf("roundtrip", "%+v read back as %+v, %v", h, back, err)
		}
		x.Seen(fmt.Sprintf("hdr %v %v %d %x %x %x", h.Pad, h.Mark, h.PT, h.Seq>>12, h.TS>>28, h.Ssrc>>28))
	})
	x.Run("event", x.N(20000, 400000), 0, func(c *mon.C) {
		h := rtp.EventHeader{Event: uint8(c.R.IntN(256)), E: c.R.Bool(), R: c.R.Bool(), Volume: uint8(c.R.IntN(64)), Duration: uint16(edge32(c.R))}
		if c.ID.Index < 65536 {
			h.Duration = uint16(c.ID.Index * 13)
		}
		buf := c.R.Bytes(4 + c.R.IntN(4))
		tail := append([]byte{}, buf[4:]...)
		h.Write(buf)
		b1 := h.Volume
		if h.E {
			b1 += 128
		}
		if h.R {
			b1 += 64
		}
		if want := []byte{h.Event, b1, byte(h.Duration / 256), byte(h.Duration % 256)}; !bytes.Equal(buf[:4], want) || !bytes.Equal(buf[4:], tail) {
			c.Failf("event-layout", "%+v written as % x, want % x", h, buf, want)
			return
		}
		back := rtp.EventHeader{Event: 77, E: c.R.Bool(), R: c.R.Bool(), Volume: 7, Duration: 7}
		back.Read(buf)
		if back != h {
			c.Failf("event-roundtrip", "%+v read back as %+v", h, back)
		}
		x.Seen(fmt.Sprintf("event %d %v %v %d %d", h.Event, h.E, h.R, h.Volume, h.Duration>>10))
	})
	x.Run("digits", 256, 0, func(c *mon.C) {
		b := byte(c.ID.Index)
		want := digitCode(b)
		code, err := rtp.CharToDtmf(b)
		if (err == nil) != (want >= 0) || err == nil && int(code) != want {
			c.Failf("char-to-event", "CharToDtmf(%q) = %d, %v; want %d", b, code, err, want)
		}
		ch, err := rtp.DtmfToChar(b)
		if (err == nil) != (b <= 16) {
			c.Failf("event-to-char", "DtmfToChar(%d) = %q, %v", b, ch, err)
		}
		if err == nil && digitCode(ch) != int(b) {
			c.Failf("event-to-char", "DtmfToChar(%d) = %q", b, ch)
		}
		x.Seen(fmt.Sprintf("digit %d", b))
	})
}

// tap is a socket that records what a session sends.
type tap struct {
	s    *net.UDPConn
	mark *net.UDPConn
	n    int
}

func newTap(r *mon.Rand) *tap {
	s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: loop(r)})
	if err != nil {
		panic(err)
	}
	m, err := net.DialUDP("udp4", nil, s.LocalAddr().(*net.UDPAddr))
	if err != nil {
		panic(err)
	}
	return &tap{s: s, mark: m}
}

func (t *tap) addr() *net.UDPAddr { return t.s.LocalAddr().(*net.UDPAddr) }
func (t *tap) close()             { t.s.Close(); t.mark.Close() }

// drain returns everything that was sent to the tap so far.
func (t *tap) drain() (out [][]byte) {
	t.n++
	end := fmt.Sprintf("end of transmission %d", t.n)
	if _, err := t.mark.Write([]byte(end)); err != nil {
		panic(err)
	}
	buf := make([]byte, 65536)
	from := t.mark.LocalAddr().String()
	for {
		t.s.SetReadDeadline(time.Now().Add(10 * time.Second))
		n, a, err := t.s.ReadFromUDP(buf)
		if err != nil {
			panic("tap lost its mark: " + err.Error())
		}
		if a.String() == from {
			if string(buf[:n]) == end {
				return
			}
			continue
		}
		out = append(out, append([]byte{}, buf[:n]...))
	}
}

// loop picks a loopback address.
func loop(r *mon.Rand) net.IP {
	return net.IPv4(127, byte(r.Range(1, 40)), byte(r.Range(0, 250)), byte(r.Range(1, 250)))
}

func newSession(c *mon.C, host string) *rtp.Session {
	rs, err := rtp.NewSession(host)
	if err != nil {
		c.Failf("open", "NewSession(%q): %v", host, err)
		return nil
	}
	if rs == nil {
		c.Failf("open", "NewSession(%q) returns nothing", host)
	}
	return rs
}

// streamPos is where the stream is: what the next packet has to carry.
type streamPos struct {
	known bool
	seq   uint16
	ts    uint32
	ssrc  uint32
}

func (p *streamPos) check(c *mon.C, what string, k rtpPkt) bool {
	if !p.known {
		*p = streamPos{true, k.seq, k.ts, k.ssrc}
	}
	switch {
	case k.ssrc != p.ssrc:
		c.Failf("ssrc", "%s: stream identifier %08x after %08x", what, k.ssrc, p.ssrc)
	case k.seq != p.seq:
		c.Failf("seq", "%s: sequence number %d, want %d", what, k.seq, p.seq)
	case k.ts != p.ts:
		c.Failf("ts", "%s: timestamp %d, want %d", what, k.ts, p.ts)
	case k.v != 2 || k.pad || k.ext || k.cc != 0:
		c.Failf("header", "%s: %v", what, k)
	default:
		return true
	}
	return false
}

// checkDigit judges the packets of one digit; it returns the shared timestamp.
func checkDigit(c *mon.C, ch byte, raw [][]byte) (first rtpPkt, ok bool) {
	var ps []rtpPkt
	desc := ""
	for _, b := range raw {
		p, ok := readRTP(b)
		if !ok || len(p.body) != 4 {
			c.Failf("digit-packet", "digit %q: packet % x", ch, b)
			return first, false
		}
		ps = append(ps, p)
		desc += fmt.Sprintf("\n  %v % x", p, p.body)
	}
	fail := func(key, f string, a ...any) (rtpPkt, bool) {
		c.Failf(key, "digit %q: %s%s", ch, fmt.Sprintf(f, a...), desc)
		return first, false
	}
	if len(ps) < 4 {
		return fail("digit-run", "only %d packets", len(ps))
	}
	lastDur := -1
	for i, p := range ps {
		code, end, res, dur := p.body[0], p.body[1]&128 != 0, p.body[1]&64 != 0, int(p.body[2])<<8|int(p.body[3])
		tail := i >= len(ps)-3
		switch {
		case p.v != 2 || p.pad || p.ext || p.cc != 0 || p.pt != 101 || res:
			return fail("digit-header", "packet %d", i)
		case int(code) != digitCode(ch):
			return fail("digit-code", "packet %d has code %d", i, code)
		case p.ssrc != ps[0].ssrc:
			return fail("digit-ssrc", "packet %d", i)
		case p.ts != ps[0].ts:
			return fail("digit-ts", "packet %d has another timestamp", i)
		case p.seq != ps[0].seq+uint16(i):
			return fail("digit-seq", "packet %d is not consecutive", i)
		case p.mark != (i == 0):
			return fail("digit-mark", "packet %d", i)
		case end != tail:
			return fail("digit-end", "packet %d", i)
		case i <= len(ps)-3 && dur <= lastDur:
			return fail("digit-duration", "packet %d does not increase the duration", i)
		case i > len(ps)-3 && !bytes.Equal(p.body, ps[i-1].body):
			return fail("digit-tail", "end packets differ")
		}
		lastDur = dur
	}
	c.Count("digits", 1)
	return ps[0], true
}

func checkR02(x *mon.Ctx) {
	x.Run("stream", x.N(1500, 20000), 0, func(c *mon.C) {
		rs := newSession(c, loop(c.R).String())
		if rs == nil {
			return
		}
		defer rs.Close()
		taps := []*tap{newTap(c.R), newTap(c.R)}
		defer taps[0].close()
		defer taps[1].close()
		if c.R.P(0.6) { // somewhere near the ends of the number ranges
			rs.Header.Seq = uint16(65536 - c.R.Range(0, 30))
			rs.Header.TS = uint32(1<<32 - c.R.Range(0, 5000))
		}
		cur := -1
		var pos streamPos
		slack := uint32(0) // a digit moved the timestamp by an unspecified amount
		hist := ""
		for op, ops := 0, c.R.Range(1, 40); op < ops && !c.Failed(); op++ {
			if c.R.P(0.1) || op == 0 {
				cur = c.R.Range(-1, 1)
				rs.Peer = nil
				if cur >= 0 {
					rs.Peer = taps[cur].addr()
				}
				hist += fmt.Sprintf(" peer=%d", cur)
			}
			kind := c.R.IntN(10)
			c.Note(hist)
			var what string
			var frame rtp.Frame
			var data []byte
			var pt uint8
			var samps uint32
			var ch byte
			var err error
			switch {
			case kind < 5:
				what = "audio"
				for i := range frame {
					frame[i] = sample16(c.R)
				}
				f0 := frame
				err = rs.Send(&frame)
				if frame != f0 {
					c.Failf("frame", "Send changed the frame")
				}
			case kind < 8:
				what = "raw"
				pt = uint8(c.R.IntN(128))
				samps = edge32(c.R)
				if c.R.P(0.7) {
					samps = uint32(c.R.IntN(2000))
				}
				n := c.R.IntN(400)
				if c.R.P(0.2) {
					n = []int{0, 1, 160, 1400, 1487, 1488, 1489, 1500, 4000}[c.R.IntN(9)]
				}
				data = c.R.Bytes(n)
				d0 := append([]byte{}, data...)
				err = rs.SendRaw(pt, data, samps)
				if !bytes.Equal(data, d0) {
					c.Failf("data", "SendRaw changed the data")
				}
			case kind < 9:
				what = "digit"
				ch = dtmfChars[c.R.IntN(len(dtmfChars))]
				err = rs.SendDTMF(ch)
			default:
				what = "no digit"
				for digitCode(ch) >= 0 || ch == 0 {
					ch = byte(c.R.Range(1, 255))
				}
				if err = rs.SendDTMF(ch); err == nil {
					c.Failf("bad-digit", "SendDTMF(%q) reports no error", ch)
				}
				err = nil
			}
			hist += " " + what
			if err != nil {
				c.Failf("send", "%s: %v", hist, err)
				return
			}
			var got [][]byte
			for i, t := range taps {
				d := t.drain()
				if i == cur {
					got = d
				} else if len(d) > 0 {
					c.Failf("stray", "%s: %d packets sent to somebody else", hist, len(d))
					return
				}
			}
			x.Count("packets", int64(len(got)))
			if cur < 0 || what == "no digit" {
				if len(got) > 0 {
					c.Failf("stray", "%s: %d packets sent", hist, len(got))
				}
				x.Count("silent operations", 1)
				continue
			}
			if what == "digit" {
				p, ok := checkDigit(c, ch, got)
				if !ok {
					return
				}
				if slack > 0 && p.ts-pos.ts < slack {
					pos.ts = p.ts
				}
				if !pos.check(c, hist, p) {
					return
				}
				pos.seq += uint16(len(got))
				slack = 8000
				continue
			}
			if len(got) != 1 {
				c.Failf("count", "%s: %d packets", hist, len(got))
				return
			}
			p, ok := readRTP(got[0])
			if !ok {
				c.Failf("packet", "%s: % x", hist, got[0])
				return
			}
			if slack > 0 && p.ts-pos.ts < slack {
				pos.ts = p.ts
			}
			slack = 0
			if !pos.check(c, hist, p) {
				return
			}
			if p.mark {
				c.Failf("mark", "%s: marked", hist)
			}
			pos.seq++
			if what == "audio" {
				pos.ts += 160
				if p.pt != 0 {
					c.Failf("pt", "%s: payload type %d", hist, p.pt)
				}
				if len(p.body) != 160 {
					c.Failf("size", "%s: %d samples", hist, len(p.body))
					return
				}
				for i, u := range p.body {
					if w := ulawEncode(int(frame[i])); u != w {
						c.Failf("encoding", "%s: sample %d of value %d is %#x, want %#x", hist, i, frame[i], u, w)
						return
					}
				}
			} else {
				pos.ts += samps
				if p.pt != int(pt) {
					c.Failf("pt", "%s: payload type %d, want %d", hist, p.pt, pt)
				}
				if !bytes.Equal(p.body, data) {
					c.Failf("raw", "%s: %d bytes carried as %d bytes, or changed", hist, len(data), len(p.body))
				}
			}
			x.Seen(fmt.Sprintf("%s seq=%v ts=%v len=%d", what, pos.seq < 60, pos.ts < 10000, len(p.body)/16))
		}
		if c.ID.Index < 3 {
			x.Sample("stream", "%s", hist)
		}
	})
	// the sending position of one session does not depend on another
	x.Run("two-sessions", x.N(200, 2000), 0, func(c *mon.C) {
		var rs [2]*rtp.Session
		var tp [2]*tap
		var pos [2]streamPos
		for i := range rs {
			if rs[i] = newSession(c, loop(c.R).String()); rs[i] == nil {
				return
			}
			defer rs[i].Close()
			tp[i] = newTap(c.R)
			defer tp[i].close()
			rs[i].Peer = tp[i].addr()
		}
		var frame rtp.Frame
		for k := 0; k < 20 && !c.Failed(); k++ {
			i := c.R.IntN(2)
			for j := range frame {
				frame[j] = sample16(c.R)
			}
			if err := rs[i].Send(&frame); err != nil {
				c.Failf("send", "%v", err)
				return
			}
			for j := range tp {
				d := tp[j].drain()
				if len(d) != map[bool]int{true: 1}[i == j] {
					c.Failf("count", "session %d sent, %d received %d packets", i, j, len(d))
					return
				}
				if len(d) == 1 {
					p, _ := readRTP(d[0])
					pos[j].check(c, "two sessions", p)
					pos[j].seq++
					pos[j].ts += 160
				}
			}
		}
		x.Seen(fmt.Sprintf("two %d", c.ID.Index%100))
	})
}

func checkR03(x *mon.Ctx) {
	x.Run("characters", 256, 0, func(c *mon.C) {
		rs := newSession(c, loop(c.R).String())
		if rs == nil {
			return
		}
		defer rs.Close()
		t := newTap(c.R)
		defer t.close()
		rs.Peer = t.addr()
		ch := byte(c.ID.Index)
		err := rs.SendDTMF(ch)
		got := t.drain()
		if digitCode(ch) < 0 {
			if err == nil || len(got) > 0 {
				c.Failf("bad-digit", "SendDTMF(%q): error %v and %d packets", ch, err, len(got))
			}
			return
		}
		if err != nil {
			c.Failf("send", "SendDTMF(%q): %v", ch, err)
			return
		}
		checkDigit(c, ch, got)
		x.Seen("char " + string(ch))
	})
	x.Run("sequences", x.N(1500, 20000), 0, func(c *mon.C) {
		rs := newSession(c, loop(c.R).String())
		if rs == nil {
			return
		}
		defer rs.Close()
		t := newTap(c.R)
		defer t.close()
		rs.Peer = t.addr()
		if c.R.Bool() {
			rs.Header.Seq = uint16(65536 - c.R.Range(0, 30))
			rs.Header.TS = uint32(1<<32 - c.R.Range(0, 3000))
		}
		seen := map[uint32]int{}
		hist := ""
		var next uint16
		known, broken := false, false
		ended, endTS := false, uint32(0) // when the last digit ends
		var frame rtp.Frame
		for k, n := 0, c.R.Range(2, 25); k < n && !c.Failed(); k++ {
			switch c.R.IntN(8) {
			case 0, 1: // audio in between
				hist += " audio"
				if err := rs.Send(&frame); err != nil {
					c.Failf("send", "%s: %v", hist, err)
					return
				}
				for _, b := range t.drain() {
					p, _ := readRTP(b)
					if p.mark {
						c.Failf("mark", "%s: audio is marked", hist)
					}
					if known && !broken && p.seq != next {
						c.Failf("seq", "%s: audio has sequence number %d, want %d", hist, p.seq, next)
					}
					if ended && int32(p.ts-endTS) < 0 {
						c.Failf("overlap", "%s: audio has timestamp %d, the digit before it ends at %d", hist, p.ts, endTS)
					}
					known, broken, next = true, false, p.seq+1
				}
			case 2: // an address the socket cannot reach
				hist += " failure"
				rs.Peer = &net.UDPAddr{IP: net.ParseIP("fe80::1"), Port: 9}
				var err error
				if c.R.Bool() {
					err = rs.SendDTMF('5')
				} else {
					err = rs.Send(&frame)
				}
				rs.Peer = t.addr()
				if err == nil {
					hist += "(not)"
				}
				t.drain()
				broken = true
				x.Count("failed transmissions", 1)
			default:
				ch := dtmfChars[c.R.IntN(len(dtmfChars))]
				if c.R.Bool() {
					ch = '7'
				}
				hist += " " + string(ch)
				if err := rs.SendDTMF(ch); err != nil {
					c.Failf("send", "%s: %v", hist, err)
					return
				}
				got := t.drain()
				p, ok := checkDigit(c, ch, got)
				if ok {
					if ended && int32(p.ts-endTS) < 0 {
						c.Failf("overlap", "%s: timestamp %d, the digit before it ends at %d", hist, p.ts, endTS)
					}
					l := got[len(got)-1]
					ended, endTS = true, p.ts+uint32(binary.BigEndian.Uint16(l[len(l)-2:]))
				}
				if !ok {
					return
				}
				if k0, dup := seen[p.ts]; dup {
					c.Failf("shared-ts", "%s: the digit has timestamp %d like the digit at step %d", hist, p.ts, k0)
				}
				seen[p.ts] = k
				if known && !broken && p.seq != next {
					c.Failf("seq", "%s: sequence number %d, want %d", hist, p.seq, next)
				}
				known, broken, next = true, false, p.seq+uint16(len(got))
			}
		}
		x.Seen(fmt.Sprintf("run of %d, %q", len(seen), hist))
		if c.ID.Index < 3 {
			x.Sample("sequence", "%s", hist)
		}
	})
}

// hostile is a packet that is no valid audio packet.
func hostileRTP(r *mon.Rand) []byte {
	ok := rtpPkt{v: 2, mark: r.Bool(), seq: uint16(r.Uint64()), ts: uint32(r.Uint64()), ssrc: uint32(r.Uint64()), body: r.Bytes(160)}
	switch r.IntN(9) {
	case 0:
		ok.v = []int{0, 1, 3}[r.IntN(3)]
	case 1:
		ok.ext = true
	case 2:
		ok.pt = r.Range(1, 127)
	case 3:
		ok.body = r.Bytes([]int{0, 1, 80, 159, 161, 162, 240, 320, 1200}[r.IntN(9)])
	case 4:
		return ok.bytes()[:r.IntN(12)]
	case 5:
		return ok.bytes()[:r.IntN(172)]
	case 6:
		return append(ok.bytes(), r.Bytes(r.Range(1, 2500))...)
	case 7:
		n := r.IntN(300)
		if n == 172 {
			n++
		}
		return r.Bytes(n)
	case 8: // exactly what the read buffer takes, and more
		return append(ok.bytes(), make([]byte, []int{2048 - 172, 2049 - 172, 4096 - 172}[r.IntN(3)])...)
	}
	return ok.bytes()
}

func checkR04(x *mon.Ctx) {
	x.Run("delivery", x.N(500, 8000), 0, func(c *mon.C) {
		rs := newSession(c, loop(c.R).String())
		if rs == nil {
			return
		}
		defer rs.Close()
		to := rs.Sock.LocalAddr().(*net.UDPAddr)
		var src []*net.UDPConn
		for i := 0; i < 3; i++ {
			s, err := net.DialUDP("udp4", &net.UDPAddr{IP: loop(c.R)}, to)
			if err != nil {
				panic(err)
			}
			defer s.Close()
			src = append(src, s)
		}
		var sent []rtpPkt
		done := make(chan struct{})
		var got atomic.Int64
		type kept struct {
			n    int
			f    *rtp.Frame
			want rtp.Frame
		}
		swap := c.R.P(0.3) // give back another frame and keep the delivered one
		slow := c.R.P(0.4)
		var want = make(chan rtp.Frame, 1000)
		rr := mon.NewRand(c.Seed, "R04r", "reader", c.ID.Index)
		go func() {
			defer close(done)
			var keep []kept
			check := func(k kept) bool {
				if *k.f != k.want {
					i := 0
					for k.f[i] == k.want[i] {
						i++
					}
					c.Failf("frame", "frame %d: sample %d is %d, want %d", k.n, i, k.f[i], k.want[i])
					return false
				}
				return true
			}
			n := 0
			for f := range rs.C {
				var w rtp.Frame
				select {
				case w = <-want:
				default:
					c.Failf("extra", "a frame was delivered that nobody sent (after %d)", n)
					rs.R <- f
					return
				}
				k := kept{n, f, w}
				if !check(k) {
					rs.R <- f
					return
				}
				if slow && rr.P(0.2) {
					time.Sleep(time.Duration(rr.IntN(300)) * time.Microsecond)
					if !check(k) {
						rs.R <- f
						return
					}
				}
				n++
				if swap && rr.P(0.5) {
					keep = append(keep, k)
					rs.R <- new(rtp.Frame)
				} else {
					rs.R <- f
				}
				got.Add(1)
			}
			for _, k := range keep {
				if !check(k) {
					return
				}
			}
			x.Count("frames kept", int64(len(keep)))
		}()
		hist := ""
		var nBad int64
	send:
		for burst, bursts := 0, c.R.Range(1, 12); burst < bursts; burst++ {
			for k, n := 0, c.R.Range(1, 30); k < n; k++ {
				s := src[c.R.IntN(3)]
				if c.R.P(0.4) {
					b := hostileRTP(c.R)
					s.Write(b)
					nBad++
					x.Seen(fmt.Sprintf("hostile len=%d first=%x", len(b)/8, first(b)))
					continue
				}
				p := rtpPkt{v: 2, mark: c.R.P(0.3), seq: uint16(c.R.Uint64()), ts: uint32(c.R.Uint64()), ssrc: uint32(c.R.Uint64()), body: c.R.Bytes(160)}
				if len(sent) > 0 && c.R.P(0.1) {
					p = sent[c.R.IntN(len(sent))] // a duplicate is a packet of its own
				}
				sent = append(sent, p)
				want <- decode(p.body)
				s.Write(p.bytes())
			}
			// the last packet of a burst is valid, so its delivery shows that the burst was worked off
			p := rtpPkt{v: 2, body: c.R.Bytes(160)}
			sent = append(sent, p)
			want <- decode(p.body)
			src[0].Write(p.bytes())
			for end := time.Now().Add(10 * time.Second); got.Load() < int64(len(sent)); time.Sleep(20 * time.Microsecond) {
				select {
				case <-done:
					if !c.Failed() {
						c.Failf("stopped", "the frame channel was closed after %d of %d frames", got.Load(), len(sent))
					}
					break send
				case err := <-rs.E:
					c.Failf("stopped", "reception ended: %v", err)
					rs.CloseAfterError()
					return
				default:
				}
				if time.Now().After(end) {
					c.Failf("lost", "%d of %d frames delivered, %d other packets sent", got.Load(), len(sent), nBad)
					break send
				}
			}
		}
		rs.Sock.Close()
		select {
		case <-rs.E:
		case <-time.After(10 * time.Second):
			c.Failf("close", "no error after the socket was closed")
			return
		}
		<-done
		rs.CloseAfterError()
		x.Count("frames", int64(len(sent)))
		x.Count("hostile packets", nBad)
		if c.ID.Index < 3 {
			x.Sample("delivery", "%d frames, %d hostile packets %s slow=%v swap=%v", len(sent), nBad, hist, slow, swap)
		}
	})
	// a long row of nothing valid
	x.Run("rows", x.N(4, 30), 0, func(c *mon.C) {
		rs := newSession(c, loop(c.R).String())
		if rs == nil {
			return
		}
		s, err := net.DialUDP("udp4", &net.UDPAddr{IP: loop(c.R)}, rs.Sock.LocalAddr().(*net.UDPAddr))
		if err != nil {
			panic(err)
		}
		defer s.Close()
		n := c.R.Range(100, 2000)
		for i := 0; i < n; i++ {
			s.Write(hostileRTP(c.R))
			if i%30 == 29 {
				time.Sleep(2 * time.Millisecond)
			}
		}
		p := rtpPkt{v: 2, body: c.R.Bytes(160)}
		want := decode(p.body)
		// Some of these might get lost if the queue is full.
		for i := 0; i < 6; i++ {
			s.Write(p.bytes())
			select {
			case f, ok := <-rs.C:
				if !ok || f == nil || *f != want {
					c.Failf("frame", "after %d hostile packets the frame is wrong", n)
					return
				}
				rs.R <- f
				rs.Close()
				c.Seen(fmt.Sprintf("row of %d", n/100))
				return
			case err := <-rs.E:
				c.Failf("stopped", "reception ended: %v", err)
				rs.CloseAfterError()
				return
			case <-time.After(3 * time.Second):
			}
		}
		c.Failf("lost", "nothing is delivered after %d hostile packets", n)
	})
	// reception and transmission of one session at the same time
	x.Run("duplex", x.N(60, 600), 0, func(c *mon.C) {
		a, b := newSession(c, loop(c.R).String()), newSession(c, loop(c.R).String())
		if a == nil || b == nil {
			return
		}
		defer a.Close()
		defer b.Close()
		a.Peer = b.Sock.LocalAddr().(*net.UDPAddr)
		b.Peer = a.Sock.LocalAddr().(*net.UDPAddr)
		n := c.R.Range(20, 150)
		fail := make(chan string, 2)
		play := func(s *rtp.Session, other *rtp.Session, r *mon.Rand) {
			// ping-pong: each side answers a frame with a frame
			var mine rtp.Frame
			for i := 0; i < n; i++ {
				for j := range mine {
					mine[j] = int16(i*7 + j*100)
				}
				if r.P(0.1) {
					s.SendDTMF('1')
				}
				if err := s.Send(&mine); err != nil {
					fail <- err.Error()
					return
				}
				select {
				case f := <-s.C:
					for j := range f {
						if w := ulawDecode(ulawEncode(int(int16(i*7 + j*100)))); int(f[j]) != w {
							fail <- fmt.Sprintf("frame %d sample %d is %d, want %d", i, j, f[j], w)
							s.R <- f
							return
						}
					}
					s.R <- f
				case <-time.After(10 * time.Second):
					fail <- fmt.Sprintf("frame %d did not come", i)
					return
				}
			}
			fail <- ""
		}
		go play(a, b, mon.NewRand(c.Seed, "R04a", "", c.ID.Index))
		go play(b, a, mon.NewRand(c.Seed, "R04b", "", c.ID.Index))
		for i := 0; i < 2; i++ {
			if e := <-fail; e != "" {
				c.Failf("duplex", "%s", e)
			}
		}
		x.Seen(fmt.Sprintf("duplex %d", n))
	})
}

func decode(b []byte) (f rtp.Frame) {
	for i := range f {
		f[i] = int16(ulawDecode(b[i]))
	}
	return
}

func first(b []byte) byte {
	if len(b) == 0 {
		return 0
	}
	return b[0]
}

func drainClosed(c *mon.C, how string, rs *rtp.Session) {
	for _, s := range []string{"frame", "error"} {
		ok := true
		end := time.After(10 * time.Second)
		timeout := false
		if s == "frame" {
			select {
			case _, ok = <-rs.C:
			case <-end:
				timeout = true
			}
		} else {
			select {
			case _, ok = <-rs.E:
			case <-end:
				timeout = true
			}
		}
		if timeout {
			c.Failf("channel", "%s: the %s channel is still open", how, s)
		} else if ok {
			c.Failf("channel", "%s: something was left in the %s channel", how, s)
		}
	}
}

func within(c *mon.C, how string, f func()) bool {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case e := <-done:
		if e != nil {
			c.Failf("panic", "%s: %v", how, e)
			return false
		}
		return true
	case <-time.After(10 * time.Second):
		c.Failf("hang", "%s: does not return\n%s", how, c.Leftover(0, "rtp."))
		return false
	}
}

func checkR05(x *mon.Ctx) {
	v6 := false
	if s, err := net.ListenPacket("udp", "[::1]:0"); err == nil {
		s.Close()
		v6 = true
	}
	ways := []string{"idle", "arriving", "waiting", "consuming", "failed", "failed-taken", "failed-close", "failed-taken-close", "waiting-failed"}
	x.Run("lifecycle", x.N(1200, 15000), 0, func(c *mon.C) {
		host := ""
		switch k := c.R.IntN(10); {
		case k == 0:
		case k == 1 && v6:
			host = "::1"
		default:
			host = loop(c.R).String()
		}
		ip := net.ParseIP(host)
		port := 0
		var rs *rtp.Session
		if host != "" && c.R.P(0.25) { // a given address
			var err error
			for try := 0; try < 8; try++ {
				t, err := net.ListenPacket("udp", net.JoinHostPort(ip.String(), "0"))
				if err != nil {
					panic(err)
				}
				host = t.LocalAddr().String()
				port = t.LocalAddr().(*net.UDPAddr).Port
				if rs, err := rtp.NewSession(host); err == nil {
					c.Failf("taken", "NewSession(%q) on a taken port opens %v", host, rs.Sock.LocalAddr())
					t.Close()
					return
				} else if rs != nil {
					c.Failf("taken", "NewSession(%q) returns an error and a session", host)
				}
				t.Close()
				// somebody else may take it before we do
				if rs, err = rtp.NewSession(host); err == nil {
					break
				}
			}
			if rs == nil {
				c.Failf("open", "NewSession(%q): %v", host, err)
				return
			}
		} else if rs = newSession(c, host); rs == nil {
			return
		}
		a := rs.Sock.LocalAddr().(*net.UDPAddr)
		switch {
		case port != 0 && a.Port != port:
			c.Failf("port", "NewSession(%q) listens on %v", host, a)
		case port == 0 && (a.Port%2 != 0 || a.Port < 16384 || a.Port > 32768):
			c.Failf("port", "NewSession(%q) listens on port %d", host, a.Port)
		case ip != nil && !a.IP.Equal(ip):
			c.Failf("host", "NewSession(%q) listens on %v", host, a)
		}
		to := *a
		if to.IP.IsUnspecified() {
			to.IP = net.IPv4(127, 0, 0, 1)
		}
		src, err := net.DialUDP("udp", nil, &to)
		if err != nil {
			panic(err)
		}
		defer src.Close()
		way := ways[c.R.IntN(len(ways))]
		how := fmt.Sprintf("NewSession(%q), %s", host, way)
		c.Note(how)
		audio := func() { src.Write(rtpPkt{v: 2, body: c.R.Bytes(160)}.bytes()) }
		fail := func() {
			if c.R.Bool() {
				rs.Sock.Close()
			} else {
				rs.Sock.SetReadDeadline(time.Now().Add(-time.Second))
			}
		}
		stop := make(chan struct{})
		flooded := make(chan struct{})
		close1, name1 := rs.Close, "Close"
		switch way {
		case "arriving":
			go func() {
				defer close(flooded)
				b := rtpPkt{v: 2, body: make([]byte, 160)}.bytes()
				for i := 0; i < 20000; i++ {
					select {
					case <-stop:
						return
					default:
						src.Write(b)
						if i%20 == 0 {
							time.Sleep(50 * time.Microsecond)
						}
					}
				}
			}()
			time.Sleep(time.Duration(c.R.IntN(2000)) * time.Microsecond)
		case "waiting":
			for i := 0; i < c.R.Range(1, 5); i++ {
				audio()
			}
			time.Sleep(time.Duration(c.R.IntN(3)) * time.Millisecond)
		case "consuming":
			n := c.R.Range(1, 6)
			for i := 0; i < n; i++ {
				audio()
			}
			for i := 0; i < n; i++ {
				select {
				case f := <-rs.C:
					rs.R <- f
				case <-time.After(10 * time.Second):
					c.Failf("lost", "%s: frame %d did not come", how, i)
					return
				}
			}
		case "failed", "failed-taken", "failed-close", "failed-taken-close", "waiting-failed":
			if way == "waiting-failed" {
				audio()
				time.Sleep(time.Duration(c.R.IntN(3)) * time.Millisecond)
			}
			fail()
			if way == "failed-taken" || way == "failed-taken-close" {
				select {
				case err, ok := <-rs.E:
					if !ok || err == nil {
						c.Failf("no-error", "%s: no error reported", how)
					}
				case <-time.After(10 * time.Second):
					c.Failf("no-error", "%s: no error reported", how)
					return
				}
			}
			if way == "failed" || way == "failed-taken" {
				close1, name1 = rs.CloseAfterError, "CloseAfterError"
			}
			if way == "failed" && c.R.Bool() {
				time.Sleep(time.Millisecond)
			}
		}
		if !within(c, how+", "+name1, close1) {
			return
		}
		close(stop)
		if way == "arriving" {
			<-flooded
		}
		drainClosed(c, how, rs)
		// closing again and sending are harmless
		var frame rtp.Frame
		rs.Peer = &to
		if !within(c, how+", second Close", rs.Close) ||
			!within(c, how+", second CloseAfterError", rs.CloseAfterError) ||
			!within(c, how+", Send after Close", func() { rs.Send(&frame); rs.SendRaw(3, []byte("x"), 1); rs.SendDTMF('1') }) {
			return
		}
		if left := c.Leftover(10*time.Second, "gosip/rtp."); left != "" {
			c.Failf("leak", "%s: still running\n%s", how, left)
			return
		}
		// somebody else may listen there now
		freed := false
		for end := time.Now().Add(5 * time.Second); !freed && time.Now().Before(end); time.Sleep(time.Millisecond) {
			if !udpOpen(a.Port, a.IP) {
				freed = true
			}
		}
		if !freed {
			c.Failf("port-held", "%s: %v is still bound", how, a)
		}
		x.Seen(fmt.Sprintf("%s port=%d v6=%v any=%v", way, min(port, 1), a.IP.To4() == nil, ip == nil))
		x.Count("sessions", 1)
	})
	// The ends of the range: the random number a port is made of may be any.
	x.Run("extremes", x.N(12, 60), 1, func(c *mon.C) {
		n := 0
		for seed := int64(c.ID.Index) << 24; n < 4; seed++ {
			k := mrand.New(mrand.NewSource(seed)).Int63() % 16385
			if k >= 2 && k < 16382 {
				continue
			}
			n++
			mrand.Seed(seed)
			rs := newSession(c, loop(c.R).String())
			if rs == nil {
				return
			}
			p := rs.Sock.LocalAddr().(*net.UDPAddr).Port
			within(c, "close", rs.Close)
			if p%2 != 0 || p < 16384 || p > 32768 {
				c.Failf("port", "session on port %d", p)
			}
			c.Eval(1)
			x.Seen(fmt.Sprintf("extreme %d", p))
			if p == 16384 || p > 32764 {
				x.Count("ports at the ends of the range", 1)
			}
		}
	})
	// one port in five is taken
	x.Run("congestion", x.N(12, 60), 4, func(c *mon.C) {
		ip := net.IPv4(127, 77, byte(c.ID.Index/250), byte(1+c.ID.Index%250))
		taken := map[int]bool{}
		for p := 16384; p <= 32768; p += 2 {
			if c.R.P(0.2) {
				s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: ip, Port: p})
				if err != nil {
					continue
				}
				defer s.Close()
				taken[p] = true
			}
		}
		var open []*rtp.Session
		defer func() {
			for _, rs := range open {
				rs.Close()
			}
		}()
		for i := 0; i < 40; i++ {
			rs, err := rtp.NewSession(ip.String())
			if err != nil {
				c.Failf("congestion", "session %d on %v with %d of 8193 ports taken: %v", i, ip, len(taken), err)
				return
			}
			open = append(open, rs)
			p := rs.Sock.LocalAddr().(*net.UDPAddr).Port
			if p%2 != 0 || p < 16384 || p > 32768 || taken[p] {
				c.Failf("port", "session on port %d", p)
			}
			taken[p] = true
		}
		x.Count("sessions under congestion", 40)
		x.Seen(fmt.Sprintf("congestion %d", c.ID.Index))
	})
	x.Run("nil", 1, 1, func(c *mon.C) {
		var rs *rtp.Session
		var frame rtp.Frame
		within(c, "no session", func() {
			rs.Send(&frame)
			rs.SendRaw(0, nil, 0)
			rs.SendDTMF('1')
			rs.Close()
			rs.CloseAfterError()
		})
	})
}

// udpOpen reports whether this process has a socket bound to the address.
func udpOpen(port int, ip net.IP) bool {
	s, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip, Port: port})
	if err != nil {
		return true
	}
	s.Close()
	return false
}

func init() {
	a := []string{"loopback UDP delivers in order and, for short bursts, without loss"}
	mon.Register(&mon.Check{ID: "R01", Rule: "all first and second header bytes, all short lengths, generated headers and events over edge values, all 256 digit characters and codes; non-trivial means a distinct combination of header bytes or field classes", Run: checkR01})
	mon.Register(&mon.Check{ID: "R02", Rule: "random sequences of audio, raw data, digits, non-digits, peer changes and absent peers on real sessions, starting near the ends of the number ranges; every packet is captured and compared with the expected stream position; non-trivial means a packet of a distinct kind, size and position class", Assumptions: a, Run: checkR02})
	mon.Register(&mon.Check{ID: "R03", Rule: "all 256 characters, and random sequences of digits, audio and failed transmissions; the captured packets of every digit are judged as one event; non-trivial means a distinct sequence", Assumptions: a, Run: checkR03})
	mon.Register(&mon.Check{ID: "R04", Rule: "bursts of valid packets from three senders mixed with hostile ones, read by quick and slow applications that give frames back or keep them; every delivered frame is compared with the sent one, again before it is given back; non-trivial means a hostile packet of a distinct shape", Assumptions: a, Race: true, Run: checkR04})
	mon.Register(&mon.Check{ID: "R05", Rule: "sessions on many hosts opened and closed in nine situations, and with a fifth of the ports taken; channels, goroutines and ports are inspected afterwards; non-trivial means a distinct situation", Assumptions: a, Race: true, Run: checkR05})
}

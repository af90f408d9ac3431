package checks

import (
	"fmt"
	"math"
	"sync"
	"syscall"
	"unsafe"

	"github.com/jart/gosip/dsp"
	"verif/mon"
)

// ulawDecode is G.711 mu-law expansion from its definition: sign, chord and
// step of the inverted code.
func ulawDecode(u byte) int {
	u = ^u
	chord, step := int(u>>4&7), int(u&15)
	v := (2*step+33)<<chord - 33
	v *= 4 // 14 bit to 16 bit
	if u&0x80 != 0 {
		return -v
	}
	return v
}

// ulawEncode compresses by the decision values of G.711: bias 132, clip 32635.
func ulawEncode(v int) byte {
	neg := v < 0
	m := v
	if neg {
		m = -v
	}
	if m > 32635 {
		m = 32635
	}
	m += 132
	chord := 0
	for b := m >> 8; b > 0; b >>= 1 {
		chord++
	}
	step := m >> (chord + 3) & 15
	u := byte(chord<<4 | step)
	if neg {
		u |= 0x80
	}
	return ^u
}

// sampleClass says which segment a sample falls in, for coverage.
func sampleClass(v int) string {
	u := ulawEncode(v)
	return fmt.Sprintf("%02x", u)
}

// arena is memory between two inaccessible pages.
type arena struct {
	mem []byte // everything, page size aligned
	mid []byte // the accessible pages
}

func newArena(pages int) *arena {
	const pg = 4096
	m, err := syscall.Mmap(-1, 0, (pages+2)*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if syscall.Mprotect(m[:pg], syscall.PROT_NONE) != nil || syscall.Mprotect(m[(pages+1)*pg:], syscall.PROT_NONE) != nil {
		panic("mprotect")
	}
	return &arena{m, m[pg : (pages+1)*pg]}
}

func (a *arena) free() { syscall.Munmap(a.mem) }

func frameAt(b []byte, off int) *[160]int16 { return (*[160]int16)(unsafe.Pointer(&b[off])) }

func get16(b []byte, off int) int16 { return int16(uint16(b[off]) | uint16(b[off+1])<<8) }
func put16(b []byte, off int, v int16) {
	b[off], b[off+1] = byte(v), byte(uint16(v)>>8)
}

var edgeSamples = []int16{0, 1, -1, 32767, -32768, 32766, -32767, 16384, -16384, 16383, -16385, 100, -100}

func sample16(r *mon.Rand) int16 {
	switch r.IntN(4) {
	case 0:
		return edgeSamples[r.IntN(len(edgeSamples))]
	case 1:
		return int16(r.Range(-300, 300))
	}
	return int16(r.Uint64())
}

func satAdd(a, b int16) int16 {
	s := int(a) + int(b)
	if s > 32767 {
		return 32767
	}
	if s < -32768 {
		return -32768
	}
	return int16(s)
}

// mixCase mixes two frames placed anywhere in guarded memory.
func mixCase(c *mon.C, dst, src *arena, doff, soff int, same bool) {
	db, sb := dst.mid, src.mid
	if same {
		sb, soff = db, doff
	}
	for i := range dst.mid {
		dst.mid[i] = byte(c.R.Uint64())
	}
	for i := range src.mid {
		src.mid[i] = byte(c.R.Uint64())
	}
	for i := 0; i < 160; i++ {
		put16(db, doff+2*i, sample16(c.R))
		put16(sb, soff+2*i, sample16(c.R))
	}
	wantD, wantS := append([]byte{}, dst.mid...), append([]byte{}, src.mid...)
	for i := 0; i < 160; i++ {
		put16(wantD, doff+2*i, satAdd(get16(db, doff+2*i), get16(sb, soff+2*i)))
	}
	c.Note(fmt.Sprintf("mixing frames at offsets %d and %d (same=%v)", doff, soff, same))
	dsp.L16MixSat160((*int16)(unsafe.Pointer(&db[doff])), (*int16)(unsafe.Pointer(&sb[soff])))
	c.Eval(160)
	for i := range wantD {
		if dst.mid[i] != wantD[i] {
			what := "touched outside the frame"
			if i >= doff && i < doff+320 {
				what = "wrong sum"
			}
			c.Failf("mix-dst", "%s: byte %d relative to the frame, offsets dst %d src %d: got %#x want %#x", what, i-doff, doff, soff, dst.mid[i], wantD[i])
			return
		}
	}
	if !same && string(src.mid) != string(wantS) {
		c.Failf("mix-src", "the source changed (offsets dst %d src %d)", doff, soff)
	}
	c.Seen(fmt.Sprintf("align %d %d %v %v %v", doff%64, soff%64, same, doff == 0, doff+320 == len(db)))
}

func init() {
	mon.Register(&mon.Check{
		ID:          "P01",
		Rule:        "All 65536 samples and all 256 codes are coded and compared with an independent implementation of the G.711 definition; error bound, monotonicity, idempotence and clipping (up to the 64-bit limits) are checked on the real outputs. Distinct = different code produced or decoded.",
		Assumptions: []string{"the independent G.711 formulas in the harness"},
		Run: func(x *mon.Ctx) {
			x.Run("encode", 65536/256, 0, func(c *mon.C) {
				for k := 0; k < 256; k++ {
					v := c.ID.Index*256 + k - 32768
					got := dsp.LinearToUlaw(int64(v))
					c.Eval(1)
					if got != int64(ulawEncode(v)) {
						c.Failf("encode", "sample %d encodes to %#x, G.711 says %#x", v, got, ulawEncode(v))
						return
					}
					c.Seen("enc" + sampleClass(v))
					back := dsp.UlawToLinear(got)
					if v > 32635 || v < -32635 {
						continue
					}
					// Half of the step of the segment the code is in.
					half := int64(4) << (^byte(got) >> 4 & 7)
					if e := back - int64(v); e > half || e < -half {
						c.Failf("error", "sample %d becomes %d, more than half a step (%d) off", v, back, half)
					}
				}
			})
			x.Run("decode", 1, 1, func(c *mon.C) {
				prev := int64(math.MinInt64)
				for u := 0; u < 256; u++ {
					got := dsp.UlawToLinear(int64(u))
					c.Eval(1)
					c.Seen(fmt.Sprint("dec", u))
					if got != int64(ulawDecode(byte(u))) {
						c.Failf("decode", "code %#x decodes to %d, G.711 says %d", u, got, ulawDecode(byte(u)))
					}
					if e := dsp.LinearToUlaw(got); e != int64(u) && !(u == 0x7F && e == 0xFF) {
						c.Failf("idempotent", "code %#x decodes to %d, which encodes to %#x", u, got, e)
					}
				}
				for v := -32768; v <= 32767; v++ {
					d := dsp.UlawToLinear(dsp.LinearToUlaw(int64(v)))
					c.Eval(1)
					if d < prev {
						c.Failf("monotone", "sample %d decodes to %d, a smaller one to %d", v, d, prev)
						break
					}
					prev = d
				}
				c.Sample("codes", "0 -> %#x, 1000 -> %#x, -1000 -> %#x, 0x80 -> %d, 0x00 -> %d", dsp.LinearToUlaw(0), dsp.LinearToUlaw(1000), dsp.LinearToUlaw(-1000), dsp.UlawToLinear(0x80), dsp.UlawToLinear(0))
			})
			x.Run("clip", x.N(2000, 100000), 0, func(c *mon.C) {
				for k := 0; k < 50; k++ {
					v := int64(32636 + c.R.Uint64()>>uint(c.R.Range(2, 63)))
					if got := dsp.LinearToUlaw(v); got != 0x80 {
						c.Failf("clip", "sample %d encodes to %#x", v, got)
					}
					if got := dsp.LinearToUlaw(-v); got != 0x00 {
						c.Failf("clip", "sample %d encodes to %#x", -v, got)
					}
					c.Eval(2)
				}
				c.Seen("clip")
			})
			// Many threads at once: the coder has no shared state.
			x.Run("threads", x.N(64, 1000), 0, func(c *mon.C) {
				for k := 0; k < 20000; k++ {
					v := c.R.Range(-32768, 32767)
					if got := dsp.LinearToUlaw(int64(v)); got != int64(ulawEncode(v)) {
						c.Failf("encode", "sample %d encodes to %#x among threads, G.711 says %#x", v, got, ulawEncode(v))
						return
					}
				}
				c.Eval(20000)
			})
		},
	})

	mon.Register(&mon.Check{
		ID: "P02",
		Rule: "Frames with random and extreme samples are placed at every even and odd offset in memory fenced by inaccessible pages and canary bytes, flush against both fences, in separate areas or the same frame; after mixing, every byte of both areas is compared with the expected one. " +
			"All pairs of boundary samples and a sweep over all sums are included. Distinct = different alignment pair and fence contact.",
		Assumptions: []string{"an access outside the areas hits an inaccessible page or a canary"},
		Run: func(x *mon.Ctx) {
			x.Run("places", x.N(3000, 60000), 0, func(c *mon.C) {
				d, s := newArena(1), newArena(1)
				defer d.free()
				defer s.free()
				end := len(d.mid) - 320
				for k := 0; k < 6; k++ {
					do, so := c.R.Range(0, end), c.R.Range(0, end)
					switch c.R.IntN(4) {
					case 0:
						do = 0
					case 1:
						do = end
					}
					switch c.R.IntN(4) {
					case 0:
						so = 0
					case 1:
						so = end
					}
					if c.R.P(0.7) { // samples are normally 2-aligned
						do, so = do&^1, so&^1
					}
					mixCase(c, d, s, do, so, c.R.P(0.1))
				}
			})
			x.Run("aligned", 1, 1, func(c *mon.C) {
				d, s := newArena(1), newArena(1)
				defer d.free()
				defer s.free()
				for do := 0; do < 32; do++ {
					for so := 0; so < 32; so++ {
						mixCase(c, d, s, do, so, false)
					}
				}
				end := len(d.mid) - 320
				mixCase(c, d, s, end, end, false)
				mixCase(c, d, s, 0, 0, false)
				mixCase(c, d, s, end, end, true)
			})
			// Both frames in one area without overlapping.
			x.Run("neighbours", x.N(500, 5000), 0, func(c *mon.C) {
				a := newArena(1)
				defer a.free()
				for i := range a.mid {
					a.mid[i] = byte(c.R.Uint64())
				}
				do := c.R.Range(0, len(a.mid)-640)
				so := do + 320
				if c.R.Bool() {
					do, so = so, do
				}
				want := append([]byte{}, a.mid...)
				for i := 0; i < 160; i++ {
					put16(want, do+2*i, satAdd(get16(a.mid, do+2*i), get16(a.mid, so+2*i)))
				}
				dsp.L16MixSat160((*int16)(unsafe.Pointer(&a.mid[do])), (*int16)(unsafe.Pointer(&a.mid[so])))
				c.Eval(160)
				if string(want) != string(a.mid) {
					c.Failf("mix-neighbours", "adjacent frames at %d and %d: wrong contents", do, so)
				}
			})
			x.Run("sums", x.N(256, 4096), 0, func(c *mon.C) {
				var d, s, w [160]int16
				for k := 0; k < 400; k++ {
					for i := range d {
						if k%2 == 0 {
							d[i], s[i] = int16(c.R.Uint64()), int16(c.R.Uint64())
						} else {
							d[i] = edgeSamples[c.R.IntN(len(edgeSamples))]
							s[i] = edgeSamples[c.R.IntN(len(edgeSamples))]
						}
						w[i] = satAdd(d[i], s[i])
					}
					keep := s
					dsp.L16MixSat160(&d[0], &s[0])
					if d != w || s != keep {
						c.Failf("sum", "wrong mix: got %v want %v", d, w)
						return
					}
				}
				c.Eval(400 * 160)
			})
		},
	})

	mon.Register(&mon.Check{
		ID: "P03",
		Rule: "Generators with random seeds and levels run for 100,000+ samples; power, mean, spread, tails, correlation up to lag 40 and clipping are measured against the normal distribution, with thresholds at 6 sigma or more. " +
			"Same-seed generators are compared sample by sample, interleaved and on several threads. Distinct = different level (rounded) and constructor.",
		Assumptions: []string{"statistical thresholds are at least 6 sigma wide; for a given VERIF_SEED the outcome is deterministic"},
		Run: func(x *mon.Ctx) {
			x.Run("statistics", x.N(120, 2000), 0, noiseStats)
			x.Run("clipping", x.N(60, 600), 0, noiseClip)
			x.Run("reproducible", x.N(200, 5000), 0, noiseSame)
			x.Run("seeds", x.N(200, 5000), 0, func(c *mon.C) {
				seed := int64(c.R.Uint64())
				if c.R.P(0.3) {
					seed = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, 7162534}[c.R.IntN(9)]
				}
				c.Note(fmt.Sprintf("seed %d", seed))
				g := dsp.NewAWGN_DBM0(seed, -20)
				zero := 0
				for k := 0; k < 2000; k++ {
					if g.Get() == 0 {
						zero++
					}
				}
				c.Eval(2000)
				if zero > 100 {
					c.Failf("silent", "seed %d gives %d zero samples out of 2000", seed, zero)
				}
			})
		},
	})
}

const dbm0 = 3.14 + 3.02

// noise makes a generator; level is the expected power relative to a
// full-scale square wave (dBov).
func noise(c *mon.C, lo, hi float64) (g func() *dsp.AWGN, dbov float64, kind string) {
	seed := int64(c.R.Uint64() >> 2)
	if c.R.Bool() {
		seed = -seed
	}
	level := lo + (hi-lo)*c.R.Float64()
	switch c.R.IntN(3) {
	case 0:
		return func() *dsp.AWGN { return dsp.NewAWGN(level) }, level - dbm0, fmt.Sprintf("NewAWGN(%.2f)", level)
	case 1:
		return func() *dsp.AWGN { return dsp.NewAWGN_DBM0(seed, level) }, level - dbm0, fmt.Sprintf("NewAWGN_DBM0(%d, %.2f)", seed, level)
	}
	return func() *dsp.AWGN { return dsp.NewAWGN_DBOV(seed, level-dbm0) }, level - dbm0, fmt.Sprintf("NewAWGN_DBOV(%d, %.2f)", seed, level-dbm0)
}

func noiseStats(c *mon.C) {
	mk, dbov, kind := noise(c, -48, -10)
	g := mk()
	const n = 100000
	s := make([]float64, n)
	var sum, sq, quad float64
	for i := range s {
		s[i] = float64(g.Get())
		sum += s[i]
		sq += s[i] * s[i]
		quad += s[i] * s[i] * s[i] * s[i]
	}
	c.Eval(n)
	rms := math.Sqrt(sq / n)
	want := math.Pow(10, dbov/20) * 32768
	off := 20 * math.Log10(rms/want)
	lim := 0.15 + 20*math.Log10(1+0.9/want) // truncation to whole samples
	if math.Abs(off) > lim {
		c.Failf("power", "%s: power is %.3f dB off the requested level (limit %.2f)", kind, off, lim)
	}
	if m := sum / n; math.Abs(m) > 6*want/math.Sqrt(n)+0.01 {
		c.Failf("mean", "%s: mean %.3f at rms %.1f", kind, m, want)
	}
	if k := quad / n / (sq / n) / (sq / n); math.Abs(k-3) > 0.15 {
		c.Failf("gaussian", "%s: kurtosis %.3f, a normal distribution has 3", kind, k)
	}
	var in [3]float64
	pos := 0.0
	for _, v := range s {
		for k := range in {
			if math.Abs(v) < float64(k+1)*want {
				in[k]++
			}
		}
		if v > 0 {
			pos++
		} else if v == 0 {
			pos += 0.5
		}
	}
	for k, p := range []float64{0.682689, 0.954500, 0.997300} {
		tol := 6*math.Sqrt(p*(1-p)/n) + 0.8/want
		if q := in[k] / n; math.Abs(q-p) > tol {
			c.Failf("gaussian", "%s: %.4f of the samples within %d sigma, expected %.4f", kind, q, k+1, p)
		}
	}
	if p := pos / n; math.Abs(p-0.5) > 6*0.5/math.Sqrt(n) {
		c.Failf("mean", "%s: %.4f of the samples are positive", kind, p)
	}
	for lag := 1; lag <= 40; lag++ {
		var a float64
		for i := lag; i < n; i++ {
			a += s[i] * s[i-lag]
		}
		if rho := a / sq; math.Abs(rho) > 0.025 {
			c.Failf("correlated", "%s: correlation %.4f at lag %d", kind, rho, lag)
			break
		}
	}
	c.Seen(fmt.Sprintf("stats %.0f %s", dbov, kind[:9]))
	c.Sample("noise", "%s: %d samples, %.3f dB off, mean %.2f, within sigma %.4f %.4f %.4f", kind, n, off, sum/n, in[0]/n, in[1]/n, in[2]/n)
}

func noiseClip(c *mon.C) {
	mk, dbov, kind := noise(c, 1, 40)
	g := mk()
	const n = 60000
	rms := math.Pow(10, dbov/20) * 32768
	// Expected share of clipped samples on each side.
	q := 0.5 * math.Erfc(32767/rms/math.Sqrt2)
	var hi, lo, sq float64
	for i := 0; i < n; i++ {
		v := g.Get()
		sq += float64(v) * float64(v)
		switch v {
		case 32767:
			hi++
		case -32768:
			lo++
		}
	}
	c.Eval(n)
	tol := 7*math.Sqrt(q*(1-q)/n) + 0.002
	if math.Abs(hi/n-q) > tol || math.Abs(lo/n-q) > tol {
		c.Failf("clipping", "%s: %.4f of the samples at the upper and %.4f at the lower limit, expected %.4f each", kind, hi/n, lo/n, q)
	}
	// E[min(|X|,L)^2] of a normal variable.
	t := 32767 / rms
	phi := math.Exp(-t*t/2) / math.Sqrt(2*math.Pi)
	want := rms*rms*(1-2*q-2*t*phi) + 2*q*32767*32767
	if r := sq / n / want; r < 0.95 || r > 1.05 {
		c.Failf("clipped-power", "%s: power of the limited noise is %.3f times the expected", kind, r)
	}
	c.Seen(fmt.Sprintf("clip %.0f", dbov))
}

func noiseSame(c *mon.C) {
	mk, _, kind := noise(c, -40, 10)
	const n = 3000
	ref := make([]int16, n)
	g := mk()
	for i := range ref {
		ref[i] = g.Get()
	}
	// Interleaved with others, in random batches.
	a, b := mk(), mk()
	other := dsp.NewAWGN_DBM0(int64(c.R.Uint64()>>1), -15)
	i, j := 0, 0
	for i < n || j < n {
		for k := c.R.IntN(5); k > 0 && i < n; k-- {
			if v := a.Get(); v != ref[i] {
				c.Failf("disturbed", "%s: sample %d is %d next to other generators and %d alone", kind, i, v, ref[i])
				return
			}
			i++
		}
		other.Get()
		for k := c.R.IntN(5); k > 0 && j < n; k-- {
			if v := b.Get(); v != ref[j] {
				c.Failf("irreproducible", "%s: sample %d is %d, another generator with the same seed and level gives %d", kind, j, v, ref[j])
				return
			}
			j++
		}
	}
	var wg sync.WaitGroup
	bad := make(chan int, 8)
	for t := 0; t < 4; t++ {
		wg.Add(1)
		g := mk()
		go func() {
			defer wg.Done()
			for i := range ref {
				if g.Get() != ref[i] {
					bad <- i
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case i := <-bad:
		c.Failf("disturbed", "%s: sample %d differs when generators run on several threads", kind, i)
	default:
	}
	c.Eval(7 * n)
	// Another seed gives another sequence.
	s1 := int64(c.R.IntN(1 << 30))
	p, q := dsp.NewAWGN_DBM0(s1, -15), dsp.NewAWGN_DBM0(s1+1+int64(c.R.IntN(1000)), -15)
	eq := 0
	for i := 0; i < 500; i++ {
		if p.Get() == q.Get() {
			eq++
		}
	}
	if eq > 100 {
		c.Failf("same", "different seeds give the same samples (%d of 500)", eq)
	}
	c.Seen("same" + kind[:12])
}

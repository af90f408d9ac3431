// Package mon is the monitor runtime: it drives workloads case by case, gives
// every case a reproducible random stream, counts what the oracles observed,
// records violations and writes the evidence.
package mon

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check describes how one property is decided.
type Check struct {
	ID          string
	Rule        string   // how cases are made and what makes one non-trivial
	Assumptions []string // what the verdict trusts
	Race        bool     // race reports with gosip frames are violations
	CaseLimit   time.Duration
	Run         func(x *Ctx)
}

var Checks = map[string]*Check{}

func Register(c *Check) {
	if _, dup := Checks[c.ID]; dup {
		panic("duplicate check " + c.ID)
	}
	Checks[c.ID] = c
}

// CaseID names one case; together with property and seed it replays it.
type CaseID struct {
	Part  string `json:"part"`
	Index int    `json:"index"`
}

type Violation struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Key      string   `json:"key"`
	Cases    []CaseID `json:"cases"`
	Detail   string   `json:"detail"`
}

type Result struct {
	Violations []Violation      `json:"violations"`
	Known      []Violation      `json:"known"`
	Evals      int64            `json:"evals"`
	Distinct   int64            `json:"distinct"`
	Samples    []string         `json:"samples"`
	Counters   map[string]int64 `json:"counters"`
	Parts      map[string]int64 `json:"parts"`
	Truncated  bool             `json:"truncated"`
}

// Ctx is the state of one run of one check.
type Ctx struct {
	Check *Check
	Tier  string
	Seed  uint64
	Only  []CaseID // replay: run nothing else

	start    time.Time
	budget   time.Duration
	known    map[string]bool
	slots    []byte
	evals    atomic.Int64
	mu       sync.Mutex
	res      Result
	perPart  map[string]int
	distinct [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	cntMu   sync.Mutex
	cnt     map[string]*atomic.Int64
	active  sync.Map // *C -> time.Time
	resPath string
	stopped atomic.Bool
}

// Thorough reports whether the deep tier runs.
func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// N picks the number of cases for the tier.
func (x *Ctx) N(quick, thorough int) int {
	if x.Thorough() || quick >= thorough {
		return thorough
	}
	return min(quick*max(quickFactor[x.Check.ID], 1), thorough)
}

// quickFactor multiplies the number of cases of checks that would be over in
// no time otherwise.
var quickFactor = map[string]int{
	"S02": 3, "S04": 3, "S05": 5, "S07": 8, "S08": 3,
	"D01": 2, "D02": 5, "D03": 3,
	"R02": 3, "R03": 3, "R04": 5, "R05": 2,
	"C01": 6, "C02": 5, "C05": 6, "C06": 8, "C07": 2, "C11": 3, "C12": 4,
	"T02": 2, "T03": 4, "T05": 3, "E02": 3,
}

// C is one case.
type C struct {
	*Ctx
	R      *Rand
	ID     CaseID
	failed atomic.Bool
	note   atomic.Value
	worker int
}

// Rand adds small helpers to a PCG stream.
type Rand struct{ *rand.Rand }

func (r *Rand) Bool() bool              { return r.Uint64()&1 == 1 }
func (r *Rand) P(p float64) bool        { return r.Float64() < p }
func (r *Rand) Pick(s ...string) string { return s[r.IntN(len(s))] }
func (r *Rand) Range(a, b int) int      { return a + r.IntN(b-a+1) }
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return b
}

// NewRand makes the stream of a case.
func NewRand(seed uint64, prop, part string, index int) *Rand {
	h := fnv.New64a()
	h.Write([]byte(prop + "/" + part))
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(index))
	h2 := fnv.New64a()
	h2.Write(b[:])
	binary.LittleEndian.PutUint64(b[:], seed)
	h2.Write(b[:])
	return &Rand{rand.New(rand.NewPCG(h.Sum64()^seed*0x9E3779B97F4A7C15, h2.Sum64()))}
}

func NewCtx(ck *Check, tier string, seed uint64, only []CaseID, budget time.Duration, known map[string]bool, resPath, slotPath string) *Ctx {
	x := &Ctx{Check: ck, Tier: tier, Seed: seed, Only: only, start: time.Now(), budget: budget, known: known, resPath: resPath}
	x.perPart = map[string]int{}
	x.cnt = map[string]*atomic.Int64{}
	x.res.Parts = map[string]int64{}
	for i := range x.distinct {
		x.distinct[i].m = map[uint64]struct{}{}
	}
	if slotPath != "" {
		if f, err := os.OpenFile(slotPath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644); err == nil {
			f.Truncate(slotCount * slotSize)
			if m, err := syscall.Mmap(int(f.Fd()), 0, slotCount*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				x.slots = m
			}
			f.Close()
		}
	}
	go x.watchdog()
	return x
}

const (
	slotCount = 256
	slotSize  = 96
)

// ReadSlots returns the cases in flight when the child died.
func ReadSlots(path string) []CaseID {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []CaseID
	for i := 0; i+slotSize <= len(b); i += slotSize {
		s := strings.TrimRight(string(b[i:i+slotSize]), "\x00")
		var c CaseID
		if n, _ := fmt.Sscanf(s, "%d %s", &c.Index, &c.Part); n == 2 {
			out = append(out, c)
		}
	}
	return out
}

func (x *Ctx) setSlot(w int, id *CaseID) {
	if x.slots == nil || w >= slotCount {
		return
	}
	s := x.slots[w*slotSize : (w+1)*slotSize]
	clear(s)
	if id != nil {
		copy(s, fmt.Sprintf("%d %s", id.Index, id.Part))
	}
}

func (x *Ctx) watchdog() {
	limit := x.Check.CaseLimit
	if limit == 0 {
		limit = 30 * time.Second
	}
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now()
		x.active.Range(func(k, v any) bool {
			c := k.(*C)
			if now.Sub(v.(time.Time)) > limit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				n, _ := c.note.Load().(string)
				c.Failf("stuck", "case still running after %v; %s\n%s", limit, n, trim(string(buf), 12000))
				x.Finish()
				os.Exit(0)
			}
			return true
		})
	}
}

// Expired reports that the time budget is used up.
func (x *Ctx) Expired() bool { return time.Since(x.start) > x.budget }

// Run runs n cases of a part on the given number of workers (0: all cores).
func (x *Ctx) Run(part string, n, workers int, fn func(c *C)) {
	if strings.ContainsAny(part, " \n") {
		panic("bad part name")
	}
	var idx []int
	if x.Only != nil {
		for _, o := range x.Only {
			if o.Part == part {
				idx = append(idx, o.Index)
			}
		}
		if idx == nil {
			return
		}
		n = len(idx)
	}
	if workers <= 0 {
		workers = runtime.GOMAXPROCS(0)
	}
	if workers > n {
		workers = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || x.stopped.Load() {
					return
				}
				if x.Only == nil && x.Expired() {
					x.mu.Lock()
					x.res.Truncated = true
					x.mu.Unlock()
					return
				}
				if idx != nil {
					i = idx[i]
				}
				x.one(part, i, w, fn)
			}
		}(w)
	}
	wg.Wait()
}

func (x *Ctx) one(part string, i, w int, fn func(c *C)) {
	c := &C{Ctx: x, ID: CaseID{part, i}, R: NewRand(x.Seed, x.Check.ID, part, i), worker: w}
	x.setSlot(w, &c.ID)
	pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("case", c.label())))
	x.active.Store(c, time.Now())
	defer func() {
		x.active.Delete(c)
		x.setSlot(w, nil)
		if e := recover(); e != nil {
			c.Failf("panic", "panic: %v\n%s", e, trim(string(debug.Stack()), 6000))
		}
	}()
	x.evals.Add(1)
	x.mu.Lock()
	x.res.Parts[part]++
	x.mu.Unlock()
	fn(c)
}

func (c *C) label() string { return fmt.Sprintf("%s/%s/%d", c.Check.ID, c.ID.Part, c.ID.Index) }

// Leftover waits until no goroutine that the case started runs in a function
// whose name contains one of the given strings, and describes those that
// still do when the time is up.
func (c *C) Leftover(wait time.Duration, frames ...string) string {
	end := time.Now().Add(wait)
	pause := time.Millisecond
	for {
		var b bytes.Buffer
		pprof.Lookup("goroutine").WriteTo(&b, 1)
		left := ""
		for _, g := range strings.Split(b.String(), "\n\n") {
			if !strings.Contains(g, fmt.Sprintf("{%q:%q}", "case", c.label())) {
				continue
			}
			for _, f := range frames {
				if strings.Contains(g, f) {
					left += g + "\n"
					break
				}
			}
		}
		if left == "" || time.Now().After(end) {
			return left
		}
		time.Sleep(pause)
		if pause < 100*time.Millisecond {
			pause *= 2
		}
	}
}

// Note records what the case is about, for the stuck report.
func (c *C) Note(s string) { c.note.Store(s) }

// Failed reports whether the case recorded a violation.
func (c *C) Failed() bool { return c.failed.Load() }

// Failf records a violation.  key names the kind of failure and is what a
// known finding is matched by.
func (c *C) Failf(key, format string, a ...any) { c.fail([]CaseID{c.ID}, key, format, a...) }

// FailAll records a violation that only all cases together show.
func (c *C) FailAll(key, format string, a ...any) { c.fail(nil, key, format, a...) }

func (c *C) fail(cases []CaseID, key, format string, a ...any) {
	c.failed.Store(true)
	v := Violation{Property: c.Check.ID, Seed: c.Seed, Tier: c.Tier, Key: key, Cases: cases,
		Detail: trim(fmt.Sprintf(format, a...), 20000)}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.known[key] {
		if len(c.res.Known) < 20 {
			c.res.Known = append(c.res.Known, v)
		}
		return
	}
	if len(c.res.Violations) < 12 {
		c.res.Violations = append(c.res.Violations, v)
	}
	if len(c.res.Violations) >= 12 {
		c.stopped.Store(true)
	}
}

// Seen counts a distinct non-trivial behaviour.
func (x *Ctx) Seen(key string) bool {
	h := fnv.New64a()
	h.Write([]byte(key))
	s := h.Sum64()
	d := &x.distinct[s&63]
	d.Lock()
	defer d.Unlock()
	if _, ok := d.m[s]; ok {
		return false
	}
	d.m[s] = struct{}{}
	return true
}

// Count adds to a named counter of observed events.
func (x *Ctx) Count(name string, n int64) {
	x.cntMu.Lock()
	p := x.cnt[name]
	if p == nil {
		p = new(atomic.Int64)
		x.cnt[name] = p
	}
	x.cntMu.Unlock()
	p.Add(n)
}

// Eval counts an extra evaluation inside a case.
func (x *Ctx) Eval(n int64) { x.evals.Add(n) }

// Sample keeps a few written-out cases per kind.
func (x *Ctx) Sample(kind, format string, a ...any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.perPart[kind] >= 2 || len(x.res.Samples) >= 24 {
		return
	}
	x.perPart[kind]++
	x.res.Samples = append(x.res.Samples, trim(kind+": "+fmt.Sprintf(format, a...), 1500))
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...[cut]"
	}
	return s
}

// Finish writes the result file.
func (x *Ctx) Finish() {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.res.Evals = x.evals.Load()
	x.res.Distinct = 0
	for i := range x.distinct {
		x.distinct[i].Lock()
		x.res.Distinct += int64(len(x.distinct[i].m))
		x.distinct[i].Unlock()
	}
	x.res.Counters = map[string]int64{}
	x.cntMu.Lock()
	for k, v := range x.cnt {
		x.res.Counters[k] = v.Load()
	}
	x.cntMu.Unlock()
	sort.Strings(x.res.Samples)
	b, _ := json.MarshalIndent(&x.res, "", " ")
	tmp := x.resPath + ".tmp"
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, x.resPath)
}

// Pick2 picks one of two numbers.
func (r *Rand) Pick2(a, b int) int {
	if r.Bool() {
		return a
	}
	return b
}

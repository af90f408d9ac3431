package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/jart/gosip/rtp"
	"verif/mon"
	"verif/wire"
)

// The fone program, run as a process whose terminal and sound hardware are a
// preloaded stand-in (stage/stage.c).

type foneKit struct {
	bin, stage string
}

// buildFone builds the program and the stand-in from the current tree.
func buildFone() (k foneKit, done func(), err error) {
	_, file, _, _ := runtime.Caller(0)
	harness := filepath.Dir(filepath.Dir(file))
	dir, err := os.MkdirTemp("", "verif-fone-")
	if err != nil {
		return
	}
	done = func() { os.RemoveAll(dir) }
	k = foneKit{filepath.Join(dir, "fone"), filepath.Join(dir, "stage.so")}
	cmd := exec.Command("go", "build", "-race", "-o", k.bin, "github.com/jart/gosip/fone")
	cmd.Dir = harness
	if out, e := cmd.CombinedOutput(); e != nil {
		return k, done, fmt.Errorf("fone does not build: %v\n%s", e, out)
	}
	cmd = exec.Command("gcc", "-shared", "-fPIC", "-O1", "-o", k.stage, filepath.Join(harness, "stage", "stage.c"))
	if out, e := cmd.CombinedOutput(); e != nil {
		return k, done, fmt.Errorf("the stand-in does not build: %v\n%s", e, out)
	}
	return
}

// screen is what the program writes to the terminal.
type screen struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *screen) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *screen) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// foneRun is one run of the program.
type foneRun struct {
	w      *world
	cmd    *exec.Cmd
	dir    string
	in     io.WriteCloser
	out    screen
	exited chan struct{}
	seed   int
}

func (w *world) fone(kit foneKit, env, args []string) *foneRun {
	dir, err := os.MkdirTemp("", "verif-stage-")
	if err != nil {
		panic(err)
	}
	p := &foneRun{w: w, dir: dir, exited: make(chan struct{}), seed: w.c.R.IntN(1 << 30)}
	p.cmd = exec.Command(kit.bin, args...)
	p.cmd.Dir = dir
	p.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TERM=dumb", "GORACE=" + os.Getenv("GORACE"), "GOTRACEBACK=all",
		"LD_PRELOAD=" + kit.stage, "STAGE_DIR=" + dir, "STAGE_SEED=" + strconv.Itoa(p.seed)}, env...)
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		p.cmd.Wait()
		close(p.exited)
	}()
	w.note("fone %q %q", env, args)
	return p
}

// gone removes what is left of the run.
func (p *foneRun) gone() {
	p.cmd.Process.Kill()
	<-p.exited
	os.RemoveAll(p.dir)
}

// log is what the stand-in was asked for.
func (p *foneRun) log() (out [][]string) {
	b, _ := os.ReadFile(filepath.Join(p.dir, "log"))
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			out = append(out, strings.Split(l, "|"))
		}
	}
	return
}

func (p *foneRun) logged(what ...string) (n int) {
	for _, l := range p.log() {
		if len(l) >= len(what) && strings.Join(l[:len(what)], "|") == strings.Join(what, "|") {
			n++
		}
	}
	return
}

// spoken is what the speaker was given.
func (p *foneRun) speaker() (out []rtp.Frame, odd bool) {
	b, _ := os.ReadFile(filepath.Join(p.dir, "speaker"))
	for ; len(b) >= 320; b = b[320:] {
		var f rtp.Frame
		for i := range f {
			f[i] = int16(binary.LittleEndian.Uint16(b[2*i:]))
		}
		out = append(out, f)
	}
	return out, len(b) > 0
}

// mic is a frame of what the microphone picks up.
func (p *foneRun) mic(n int) (f rtp.Frame) {
	for i := range f {
		h := (uint64(p.seed) + uint64(n)*160 + uint64(i)) * 0x9E3779B97F4A7C15
		h ^= h >> 29
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 32
		f[i] = int16(h)
	}
	return
}

// until waits for a condition as long as the program runs.
func (p *foneRun) until(limit time.Duration, cond func() bool) bool {
	for end := time.Now().Add(limit); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if cond() {
			return true
		}
		select {
		case <-p.exited:
			return cond()
		default:
		}
	}
	return cond()
}

func (p *foneRun) fail(key, f string, a ...any) {
	p.w.fail(key, "%s\nThe program wrote:\n%s\nIt used: %q", fmt.Sprintf(f, a...), cutText(p.out.String(), 3000), p.log())
}

func cutText(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// exit waits for the program to end and judges how it does.
func (p *foneRun) exit(want int) bool {
	select {
	case <-p.exited:
	case <-time.After(patience):
		p.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(300 * time.Millisecond)
		p.fail("no-exit", "the program does not end")
		return false
	}
	st := p.cmd.ProcessState
	text := p.out.String()
	for _, bad := range []string{"panic:", "fatal error:", "SIGSEGV", "goroutine "} {
		if strings.Contains(text, bad) {
			p.fail("crash", "the program crashes (%v)", st)
			return false
		}
	}
	if c := st.ExitCode(); c != want && !(want > 0 && c > 0) {
		p.fail("status", "the program ends with %v instead of status %d", st, want)
		return false
	}
	if n := p.logged("initscr"); n > 0 && p.logged("endwin") == 0 {
		p.fail("screen", "the terminal is left in disorder")
		return false
	}
	return true
}

// foneUsage is about command lines that cannot work.
func foneUsage(kit foneKit) func(w *world) {
	return func(w *world) {
		r := w.c.R
		v := w.server(0)
		uri := fmt.Sprintf("sip:alice@%v", v.addr())
		env := []string{"USER=joe"}
		args := []string{"-address", "127.0.0.1"}
		kind := r.Pick("none", "two", "uri", "play", "record", "flag", "lookup", "answer", "answer")
		want := ""
		switch kind {
		case "none":
			want = "Usage"
		case "two":
			args, want = append(args, uri, r.Pick(uri, "x", "")), "Usage"
		case "uri":
			args = append(args, r.Pick("", "alice", "sip:", ":", "@", "sip:a b@c", "sip:alice@", "sip:[::1", "sip:a@b:99999999", uri+" x", "<"+uri+">"))
		case "play":
			env, args = append(env, "STAGE_NODEV=1"), append(args, uri)
		case "record":
			env, args = append(env, "STAGE_NODEV=2"), append(args, uri)
		case "flag":
			args, want = append(args, "-nosuch", uri), "Usage"
		case "lookup": // nobody knows our address
			env, args = append(env, "http_proxy=http://127.0.0.1:9", "HTTP_PROXY=http://127.0.0.1:9"), []string{uri}
		case "answer": // who is asked for our address doesn't tell
			status := []int{200, 200, 403, 429, 500, 503}[r.IntN(6)]
			body := r.Pick("", "<html><body>Service Unavailable</body></html>", "unknown", "no such host", "{\"error\": 1}", "1.2.3", "1.2.3.4.5", "300.1.1.1")
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			h := &http.Server{Handler: http.HandlerFunc(func(o http.ResponseWriter, _ *http.Request) {
				o.WriteHeader(status)
				io.WriteString(o, body)
			})}
			go h.Serve(ln)
			defer h.Close()
			env, args = append(env, "http_proxy=http://"+ln.Addr().String(), "HTTP_PROXY=http://"+ln.Addr().String()), []string{uri}
			kind = fmt.Sprintf("answer %d %q", status, body)
		}
		p := w.fone(kit, env, args)
		defer p.gone()
		v.handle(func(e *entry) {
			if e.m.Method == "INVITE" {
				p.fail("call", "%s: the program calls all the same", kind)
				v.reply(e, reply{status: 486, tag: "peer"})
			}
		})
		select {
		case <-p.exited:
		case <-time.After(patience):
			p.fail("no-exit", "%s: the program does not end", kind)
			return
		}
		if p.cmd.ProcessState.ExitCode() == 0 {
			p.fail("status", "%s: the program ends with status 0", kind)
			return
		}
		if t := p.out.String(); t == "" || !strings.Contains(t, want) {
			p.fail("message", "%s: the program does not say %q", kind, want)
			return
		}
		v.mark()
		if w.count(func(e *entry) bool { return e.kind == "recv" }) > 0 {
			p.fail("call", "%s: the program calls all the same", kind)
			return
		}
		w.c.Eval(1)
		w.x.Seen("usage " + kind + fmt.Sprint(args))
	}
}

// foneLookup is about interruptions while the program waits for a name server.
func foneLookup(kit foneKit) func(w *world) {
	return func(w *world) {
		r := w.c.R
		v := w.server(0)
		found := ""
		if r.Bool() {
			found = v.ip()
		}
		slow := r.Pick2(400, r.Range(300, 900))
		p := w.fone(kit, []string{"USER=joe", "GODEBUG=netdns=cgo", "STAGE_NAME=" + found, fmt.Sprintf("STAGE_LOOKUP=%d", slow)},
			[]string{"-address", "127.0.0.1", fmt.Sprintf("sip:alice@slow.test:%d", v.port())})
		defer p.gone()
		if !p.until(patience, func() bool { return p.logged("lookup") > 0 && p.logged("initscr") > 0 }) {
			p.fail("no-lookup", "the program does not look up the server")
			return
		}
		time.Sleep(10 * time.Millisecond)
		presses := r.IntN(13)
		for i := 0; i < presses; i++ {
			p.cmd.Process.Signal(syscall.SIGINT)
			time.Sleep(time.Duration(r.Range(2, 25)) * time.Millisecond)
		}
		if found != "" && presses == 0 {
			inv := v.request(patience, 0, "INVITE")
			if inv == nil {
				p.fail("no-invite", "the program does not call")
				return
			}
			v.reply(inv, reply{status: 486, tag: "peer"})
		}
		// Once the server is called the interruptions may come too early for
		// a response and cancel the call, or end it at once.
		v.handle(func(e *entry) {
			if e.m.Method == "CANCEL" {
				v.reply(e, reply{status: 200})
			}
		})
		if !p.exit(1) {
			return
		}
		if found == "" && !strings.Contains(p.out.String(), "SIP") {
			p.fail("message", "the program does not say why the call fails")
			return
		}
		w.c.Eval(1)
		w.x.Seen(fmt.Sprint("lookup ", found != "", presses))
	}
}

// foneCall is a call with the program.
func foneCall(kit foneKit) func(w *world) {
	return func(w *world) {
		r := w.c.R
		v := w.server(0)
		host := r.Pick("127.0.0.1", "192.0.2.77", loop(r).String(), "203.0.113.1", "2001:db8::7", "::1")
		user := r.Pick("joe", "joe", "jane.doe", "")
		interval := 20000
		end := r.Pick("bye", "bye", "interrupt", "interrupt", "terminate", "lost", "early-interrupt", "early-interrupt", "early-terminate", "early-bye", "reject", "nobody", "silent")
		early := r.IntN(3)
		if end == "nobody" {
			early = 0
		}
		if end == "silent" {
			early, interval = 0, 100
		}
		uri := fmt.Sprintf("sip:%s%v%s", r.Pick("", "alice@", "+15551234@", "a%20b@"), v.addr(), r.Pick("", "", ";user=phone"))
		muted := r.P(0.15) && end != "lost" // the stand-in acts when it is asked for sound
		args := []string{"-resendInterval", strconv.Itoa(interval), "-maxResends", "1"}
		env := []string{}
		if user != "" {
			env = append(env, "USER="+user)
		}
		if r.P(0.8) {
			args = append(args, "-address", host)
		} else {
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			h := &http.Server{Handler: http.HandlerFunc(func(o http.ResponseWriter, _ *http.Request) { io.WriteString(o, host) })}
			go h.Serve(ln)
			defer h.Close()
			env = append(env, "http_proxy=http://"+ln.Addr().String(), "HTTP_PROXY=http://"+ln.Addr().String())
		}
		if muted {
			args = append(args, "-mute")
		}
		server, sink := "-", "-"
		if r.P(0.2) {
			server = r.Pick("tcp:host:4713", "host", "unix:/x y", "é")
			args = append(args, "-paServer", server)
		}
		if r.P(0.2) {
			sink = r.Pick("alsa_output.0", "a b", "é", "0")
			args = append(args, "-paSink", sink)
		}
		micfail, spkfail := 0, 0
		if r.P(0.5) { // recording takes its time
			env = append(env, fmt.Sprintf("STAGE_MICWAIT=%d", r.Range(1, 16)))
		}
		if r.P(0.15) {
			micfail = r.Range(2, 6)
			env = append(env, fmt.Sprintf("STAGE_MICFAIL=%d", micfail))
		}
		if r.P(0.15) {
			spkfail = r.Range(2, 6)
			env = append(env, fmt.Sprintf("STAGE_SPKFAIL=%d", spkfail))
		}
		args = append(args, uri)
		if end == "nobody" {
			v.leave()
		}
		began := time.Now()
		p := w.fone(kit, env, args)
		defer p.gone()

		if end == "nobody" {
			if p.exit(1) {
				if !strings.Contains(p.out.String(), "SIP") {
					p.fail("message", "the program does not say why the call fails")
				}
				w.x.Seen("nobody")
			}
			return
		}
		inv := v.request(patience+10*time.Second, 0, "INVITE")
		if inv == nil {
			p.fail("no-invite", "the program does not call")
			return
		}
		at, ok := p.judgeOffer(inv.m, uri, user, host)
		if !ok {
			return
		}
		at.IP = net.IPv4(127, 0, 0, 1)
		if end == "silent" {
			if p.exit(1) {
				w.x.Seen("silent")
				w.c.Eval(1)
			}
			return
		}
		var taps []*tap
		for i := 0; i < 2; i++ {
			t := newTap(r)
			if i > 0 && r.P(0.4) { // another port of the same address
				if s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: taps[0].addr().IP}); err == nil {
					t.close()
					m, err := net.DialUDP("udp4", nil, s.LocalAddr().(*net.UDPAddr))
					if err != nil {
						panic(err)
					}
					t = &tap{s: s, mark: m}
				}
			}
			defer t.close()
			taps = append(taps, t)
		}
		mouth, err := net.ListenUDP("udp4", &net.UDPAddr{IP: loop(r)})
		if err != nil {
			panic(err)
		}
		defer mouth.Close()
		var said []rtp.Frame
		out := rtpPkt{v: 2, seq: uint16(r.Uint32()), ts: r.Uint32(), ssrc: r.Uint32()}
		n := 0
		say := func() {
			for m := r.Range(1, 10); m > 0; m-- {
				if r.P(0.2) {
					o := out
					o.pt, o.body = r.Pick2(101, 13), r.Bytes(r.Range(1, 30))
					mouth.WriteToUDP(o.bytes(), at)
				}
				out.body = r.Bytes(160)
				mouth.WriteToUDP(out.bytes(), at)
				n++
				if spkfail == 0 || n%spkfail != 0 {
					said = append(said, decode(out.body))
				}
				out.seq++
				out.ts += 160
			}
		}
		var moves []int // the taps in the order they were named
		cur := -1
		body := func() []byte {
			cur = r.IntN(len(taps))
			moves = append(moves, cur)
			return bodyText(taps[cur].addr().IP.String(), taps[cur].addr().Port, 0)
		}
		desc := ""
		for ; early > 0; early-- {
			rep := reply{status: []int{100, 180, 183}[r.IntN(3)], tag: "peer", contact: v.contact()}
			if rep.status != 100 && r.P(0.4) {
				rep.body = body()
				desc += " media"
			}
			desc += fmt.Sprint(" ", rep.status)
			v.reply(inv, rep)
			if r.Bool() {
				say()
			}
			time.Sleep(time.Duration(r.IntN(120)) * time.Millisecond)
		}
		ack := func(n int, cseq string) bool {
			if v.recv(patience, n, func(m *wire.Msg) bool { return m.Method == "ACK" && m.Get("cseq") == cseq }) == nil {
				p.fail("no-ack", "the answer is not acknowledged")
				return false
			}
			return true
		}
		// Nobody has asked the program to hang up yet.
		calm := func() bool {
			if w.count(func(e *entry) bool { return isReq(e, "BYE") || isReq(e, "CANCEL") }) > 0 {
				p.fail("hangs-up", "the program hangs up without being asked to (%s)", desc)
				return false
			}
			return true
		}
		ackSeq := strings.Fields(inv.m.Get("cseq"))[0] + " ACK"
		sig := map[string]os.Signal{"interrupt": syscall.SIGINT, "terminate": syscall.SIGTERM}[strings.TrimPrefix(end, "early-")]
		done := func(status int) {
			if !p.exit(status) || !p.judgeStage(uri, server, sink, muted, status, time.Since(began)) {
				return
			}
			w.c.Eval(1)
			w.x.Seen(fmt.Sprint(end, desc, muted, user, server != "-", sink != "-", micfail, spkfail))
		}
		if end == "reject" {
			e := v.reply(inv, reply{status: r.Pick2(486, r.Range(400, 699)), tag: "peer"})
			if !ack(e.n, ackSeq) {
				return
			}
			desc += " reject"
			done(1)
			return
		}
		if end == "early-bye" {
			v.reply(inv, reply{status: 183, tag: "peer", contact: v.contact()})
			e := v.send(inv.from, newPeer(r, inv.m).request("BYE", r.Range(1, 1000)))
			if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
				p.fail("no-reply", "a BYE is not answered")
				return
			}
			done(1)
			return
		}
		if strings.HasPrefix(end, "early-") {
			// The program has to be past its start.
			if !p.until(patience, func() bool { return p.logged("initscr") > 0 }) {
				p.fail("no-screen", "the program does not get going")
				return
			}
			if len(moves) == 0 && !strings.Contains(desc, "1") {
				v.reply(inv, reply{status: 180, tag: "peer", contact: v.contact()})
			}
			if !calm() {
				return
			}
			p.cmd.Process.Signal(sig)
			if r.P(0.3) {
				p.cmd.Process.Signal(sig)
			}
			c := v.request(patience, 0, "CANCEL")
			if c == nil {
				p.fail("no-cancel", "%v does not cancel the call", sig)
				return
			}
			v.reply(c, reply{status: 200})
			e := v.reply(inv, reply{status: 487, tag: "peer"})
			if !ack(e.n, ackSeq) {
				return
			}
			done(1)
			return
		}

		var keys, digits string
		type2 := func() {
			for m := r.Range(1, 3); m > 0; m-- {
				ch := dtmfChars[r.IntN(len(dtmfChars))]
				if r.P(0.25) {
					ch = "xyz .\nE?"[r.IntN(8)]
				} else {
					digits += string(ch)
				}
				keys += string(ch)
				p.in.Write([]byte{ch})
				time.Sleep(time.Duration(r.IntN(60)) * time.Millisecond)
			}
		}
		pressed := func() bool {
			if !p.until(patience, func() bool { return strings.Count(p.out.String(), "DTMF: ") >= len(keys) }) {
				p.fail("no-digit", "%d keys were pressed, %q", len(keys), keys)
				return false
			}
			return true
		}
		if r.P(0.2) { // the keys wait for the answer
			desc += " impatient"
			type2()
		}
		rep := reply{status: 200, tag: "peer", contact: v.contact()}
		if cur < 0 || r.Bool() {
			rep.body = body()
		}
		e := v.reply(inv, rep)
		if !ack(e.n, ackSeq) {
			return
		}
		peer := newPeer(r, inv.m)
		seq := r.Range(1, 1000)
		for m := r.Range(1, 5); m > 0; m-- {
			step := r.Pick("say", "talk", "keys", "move", "query")
			desc += " " + step
			seq++
			switch step {
			case "say":
				say()
			case "talk":
				time.Sleep(time.Duration(r.Range(50, 300)) * time.Millisecond)
			case "keys":
				type2()
			case "move":
				if !pressed() {
					return
				}
				e := v.send(inv.from, peer.requestBody("INVITE", seq, body(), "Contact: "+v.contact()))
				if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
					p.fail("no-reply", "a re-INVITE is not answered")
					return
				}
				v.send(inv.from, peer.request("ACK", seq))
			case "query":
				e := v.send(inv.from, peer.request("OPTIONS", seq))
				if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
					p.fail("no-reply", "a query is not answered")
					return
				}
			}
		}
		if r.P(0.2) {
			desc += " eof"
			p.in.Close()
		}
		if !pressed() {
			return
		}
		if !p.until(patience, func() bool { got, _ := p.speaker(); return len(got) >= len(said) }) {
			got, _ := p.speaker()
			p.fail("unheard", "the speaker plays %d of %d frames", len(got), len(said))
			return
		}
		if spkfail > 0 { // the last one may have been one that failed
			p.until(time.Second, func() bool { return strings.Count(p.out.String(), "Speaker: ") >= n/spkfail })
		}
		arrived := make([][][]byte, len(taps))
		drain := func() {
			for i, t := range taps {
				arrived[i] = append(arrived[i], t.drain()...)
			}
		}
		drain()
		had := len(arrived[cur])
		if !p.until(patience, func() bool { drain(); return len(arrived[cur]) > had+1 }) {
			p.fail("silence", "nothing arrives at the media address %v", taps[cur].addr())
			return
		}
		if !calm() {
			return
		}
		seq++
		switch end {
		case "bye":
			e := v.send(inv.from, peer.request("BYE", seq))
			if v.response(patience, e.n, 200, e.m.Get("cseq")) == nil {
				p.fail("no-reply", "a BYE is not answered")
				return
			}
		default:
			v.handle(func(e *entry) {
				if e.m.Method == "BYE" {
					v.reply(e, reply{status: 200})
				}
			})
			if end == "lost" {
				if err := os.WriteFile(filepath.Join(p.dir, "cut.new"), []byte(fmt.Sprintln(at.Port)), 0o600); err != nil {
					panic(err)
				}
				os.Rename(filepath.Join(p.dir, "cut.new"), filepath.Join(p.dir, "cut"))
				if !p.until(patience, func() bool { return p.logged("cut") > 0 }) {
					panic("the media socket is not found")
				}
				mouth.WriteToUDP([]byte("wake up"), at)
			} else {
				p.cmd.Process.Signal(sig)
				if r.P(0.3) { // Hurry up.
					time.Sleep(time.Duration(r.IntN(30)) * time.Millisecond)
					p.cmd.Process.Signal(sig)
				}
			}
			if v.request(patience, 0, "BYE") == nil {
				p.fail("no-bye", "the program does not hang up")
				return
			}
		}
		if end == "lost" {
			if p.exit(0) {
				w.c.Eval(1)
				w.x.Seen("lost" + desc)
			}
			return
		}
		done(0)
		if w.failed() {
			return
		}
		got, odd := p.speaker()
		if odd || !judgeHeard(w, "the speaker", got, said) {
			if odd {
				p.fail("garbled", "the speaker is given parts of frames")
			}
			return
		}
		drain()
		p.judgeSaid(arrived, moves, digits, muted)
	}
}

// judgeOffer judges the INVITE.
func (p *foneRun) judgeOffer(m *wire.Msg, uri, user, host string) (at *net.UDPAddr, ok bool) {
	bad := func(f string, a ...any) (*net.UDPAddr, bool) {
		p.fail("invite", "%s\n%s", fmt.Sprintf(f, a...), m.Raw)
		return nil, false
	}
	at, err := offered(m)
	if err != nil {
		return bad("offer: %v", err)
	}
	own, family, sentBy := host, "IP4", ""
	if strings.Contains(host, ":") {
		own, family = "["+host+"]", "IP6"
	}
	if v := m.Vias(); len(v) > 0 {
		sentBy = v[0].HostPort
	}
	by := own
	own = "sip:" + own
	from := own
	if user != "" {
		from = "sip:" + user + "@" + by
	}
	plain := func(s string) string { // without port and parameters
		s, _, _ = strings.Cut(s, ";")
		if i := strings.LastIndexByte(s, ':'); i > 4 && !strings.Contains(s[i:], "]") {
			s = s[:i]
		}
		return s
	}
	switch {
	case m.URI != uri:
		return bad("it goes to %q, not to %q", m.URI, uri)
	case m.Addr("to").URI != uri || m.Addr("to").Tag() != "":
		return bad("it is to %q, not to %q", m.Get("to"), uri)
	case plain(m.Addr("from").URI) != from || m.Addr("from").Tag() == "":
		return bad("it is from %q, not from %q", m.Get("from"), from)
	case len(m.Addrs("contact")) != 1 || plain(m.Addrs("contact")[0].URI) != own:
		return bad("the contact is %q, not %q", m.Get("contact"), own)
	case !strings.HasPrefix(sentBy, by+":"):
		return bad("it is sent by %q, not by %s", sentBy, by)
	case at.IP.String() != host:
		return bad("it offers media at %v", at)
	case at.Port%2 != 0 || at.Port < 16384 || at.Port > 32768:
		return bad("it offers media on port %d", at.Port)
	case !strings.Contains(string(m.Body), "\no=") || !strings.Contains(string(m.Body), " IN "+family+" "+host+"\r\ns="):
		return bad("the origin of the description is not %s", host)
	}
	for _, l := range strings.Split(string(m.Body), "\r\n") {
		if strings.HasPrefix(l, "m=") && !strings.HasPrefix(l, fmt.Sprintf("m=audio %d RTP/AVP 0 101", at.Port)) {
			return bad("it offers %q", l)
		}
	}
	return at, true
}

// judgeStage judges how the hardware was used.
func (p *foneRun) judgeStage(uri, server, sink string, muted bool, status int, took time.Duration) bool {
	for dir, name := range map[string]string{"1": "speaker", "2": "microphone"} {
		// S16LE
		if p.logged("new", dir, "3", "8000", "1", server, "fone", sink, uri) != 1 || p.logged("new", dir) != 1 {
			p.fail("device", "the %s is not opened once for mono 16 bit samples at 8 kHz", name)
			return false
		}
		if n := p.logged("free", dir); n > 1 || status == 0 && n != 1 {
			p.fail("device", "the %s is closed %d times", name, n)
			return false
		}
	}
	for _, l := range p.log() {
		if l[0] == "free" && l[1] == "2" && len(l) == 4 {
			reads, _ := strconv.Atoi(l[2])
			ms, _ := strconv.Atoi(l[3])
			switch {
			case muted && reads > 0:
				p.fail("mute", "%d frames were taken from the microphone", reads)
				return false
			case !muted && reads > ms/20+3:
				p.fail("pace", "%d frames were taken from the microphone in %d ms", reads, ms)
				return false
			case !muted && reads < ms/20/4-5:
				p.w.late("pace", "%d frames were taken from the microphone in %d ms", reads, ms)
				return false
			}
			p.w.x.Count("frames from the microphone", int64(reads))
		}
	}
	if status == 0 && (p.logged("cbreak") != 1 || p.logged("noecho") != 1) {
		p.fail("keys", "the terminal is not prepared for single keys")
		return false
	}
	return true
}

// judgeSaid compares what arrived at the media addresses with the microphone
// and the keys.
func (p *foneRun) judgeSaid(arrived [][][]byte, moves []int, digits string, muted bool) bool {
	w := p.w
	type item struct {
		tap int
		raw []byte
		k   rtpPkt
	}
	var all []item
	for i, t := range arrived {
		for _, b := range t {
			k, ok := readRTP(b)
			if !ok {
				p.fail("stream", "not RTP: % x", b)
				return false
			}
			all = append(all, item{i, b, k})
		}
	}
	if len(all) == 0 {
		p.fail("silence", "nothing arrives")
		return false
	}
	first := all[0].k.seq
	sort.SliceStable(all, func(i, j int) bool { return int16(all[i].k.seq-first) < int16(all[j].k.seq-first) })
	var pos streamPos
	at := 0
	mic := -1
	typed := ""
	var noise []float64
	for i := 0; i < len(all); i++ {
		k := all[i].k
		for at < len(moves) && moves[at] != all[i].tap {
			at++
		}
		if at == len(moves) {
			p.fail("stream", "packet %d goes to media address %d, the other end was at %v", i, all[i].tap, moves)
			return false
		}
		if !pos.check(w.c, fmt.Sprintf("packet %d", i), k) {
			return false
		}
		if k.pt == 101 {
			var run [][]byte
			ends := 0
			for ; i < len(all) && ends < 3 && all[i].k.pt == 101 && all[i].tap == moves[at]; i++ {
				run = append(run, all[i].raw)
				if b := all[i].k.body; len(b) > 1 && b[1]&128 != 0 {
					ends++
				}
			}
			i--
			if len(typed) >= len(digits) {
				p.fail("digit", "more digits than %q", digits)
				return false
			}
			if _, ok := checkDigit(w.c, digits[len(typed)], run); !ok {
				return false
			}
			typed += string(digits[len(typed)])
			pos = streamPos{}
			if i+1 < len(all) {
				if d := all[i+1].k.ts - k.ts; d == 0 || d > 8000 {
					p.fail("stream", "after a digit at %d the stream goes on at %d", k.ts, all[i+1].k.ts)
					return false
				}
				pos = streamPos{true, k.seq + uint16(len(run)), all[i+1].k.ts, k.ssrc}
			}
			continue
		}
		pos.seq++
		pos.ts += 160
		if k.pt != 0 || len(k.body) != 160 {
			p.fail("audio", "packet %d: %v", i, k)
			return false
		}
		if muted {
			for _, b := range k.body {
				noise = append(noise, float64(ulawDecode(b)))
			}
			continue
		}
		same := func(n int) bool {
			f := p.mic(n)
			for j, b := range k.body {
				if b != ulawEncode(int(f[j])) {
					return false
				}
			}
			return true
		}
		if mic < 0 {
			for mic = 0; mic < 5000 && !same(mic); mic++ {
			}
		}
		if !same(mic) {
			p.fail("audio", "packet %d is not frame %d of the microphone", i, mic)
			return false
		}
		mic++
	}
	if typed != digits {
		p.fail("digit", "the keys %q were pressed, %q arrive", digits, typed)
		return false
	}
	if len(noise) >= 3000 {
		sum := 0.0
		for _, v := range noise {
			sum += v * v
		}
		// -45 dBm0 at a full scale of 6.16 dBm0.
		got, want := math.Sqrt(sum/float64(len(noise))), 32768*math.Pow(10, (-45-6.16)/20)
		if got < want*0.8 || got > want*1.25 {
			p.fail("noise", "the comfort noise has a level of %.1f, it should be %.1f", got, want)
			return false
		}
		w.x.Count("comfort noise samples", int64(len(noise)))
	}
	w.x.Count("media packets at the peers", int64(len(all)))
	w.x.Count("digits typed", int64(len(digits)))
	return true
}

func init() {
	mon.Register(&mon.Check{
		ID:          "E02",
		Rule:        "runs of the fone program, built from the tree with the race detector, with a preloaded stand-in for terminal and sound hardware: command lines and answers about the own address that cannot work, and calls to scripted peers with early media, moves, keys, queries and every way to end, also interruptions while the server's name is being looked up; every packet, everything played, the use of the hardware and the exit status are compared with the script; non-trivial means a distinct history",
		Assumptions: []string{"the stand-in behaves like PulseAudio's simple API and ncurses as far as fone uses them", "loopback UDP delivers the datagrams of one socket in order and without loss as long as fewer than 256 wait"},
		Race:        true,
		Run: func(x *mon.Ctx) {
			settings{20000, 2, false, false}.apply()
			kit, done, err := buildFone()
			if done != nil {
				defer done()
			}
			if err != nil {
				panic(errors.New("no verdict: " + err.Error()))
			}
			calls(x, "usage", x.N(60, 400), 8, foneUsage(kit))
			calls(x, "lookup", x.N(60, 400), 8, foneLookup(kit))
			calls(x, "call", x.N(220, 4000), 12, foneCall(kit))
		},
	})
}

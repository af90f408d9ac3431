package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// run is the fone program with a stand-in for sound hardware and terminal.
type run struct {
	dir  string
	cmd  *exec.Cmd
	keys io.WriteCloser
	mu   sync.Mutex
	out  bytes.Buffer
	done chan bool
}

func (r *run) Write(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.out.Write(p)
}

// fone starts the program.
func fone(env string, args ...string) *run {
	wd, err := os.Getwd()
	must(err)
	build := func(name string, args ...string) {
		if o, err := exec.Command(name, args...).CombinedOutput(); err != nil {
			die("%v %s", err, o)
		}
	}
	build("go", "build", "-o", wd+"/fone", "github.com/jart/gosip/fone")
	build("gcc", "-shared", "-fPIC", "-o", wd+"/stage.so", wd+"/c/stage.c")
	r := &run{dir: wd + "/stage", done: make(chan bool)}
	must(os.Mkdir(r.dir, 0700))
	r.cmd = exec.Command(wd+"/fone", args...)
	r.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + r.dir, "USER=joe", "TERM=dumb", "LD_PRELOAD=" + wd + "/stage.so", "STAGE_DIR=" + r.dir}, strings.Fields(env)...)
	r.cmd.Stdout, r.cmd.Stderr = r, r
	r.keys, err = r.cmd.StdinPipe()
	must(err)
	must(r.cmd.Start())
	go func() {
		r.cmd.Wait()
		close(r.done)
	}()
	time.AfterFunc(60*time.Second, func() { r.cmd.Process.Kill() })
	return r
}

// quit ends the demonstration with a failure.
func (r *run) quit(f string, a ...interface{}) {
	r.cmd.Process.Kill()
	die("%s\n%s", fmt.Sprintf(f, a...), r.out.String())
}

// exit waits for the end and returns the status.
func (r *run) exit() int {
	select {
	case <-r.done:
	case <-time.After(10 * time.Second):
		r.quit("the program does not end")
	}
	return r.cmd.ProcessState.ExitCode()
}

// played is what the speaker was given.
func (r *run) played() []byte {
	b, _ := ioutil.ReadFile(filepath.Join(r.dir, "speaker"))
	return b
}

// media returns the port the INVITE offers.
func media(inv string) (port int) {
	i := strings.Index(inv, "m=audio ")
	if i < 0 {
		die("no media: %s", inv)
	}
	fmt.Sscanf(inv[i:], "m=audio %d", &port)
	return
}

// sdpAt is a description of media at a port.
func sdpAt(port int) string {
	return fmt.Sprintf("v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=x\r\nc=IN IP4 127.0.0.1\r\nt=0 0\r\nm=audio %d RTP/AVP 0 101\r\na=rtpmap:101 telephone-event/8000\r\n", port)
}

func itoa(n int) string { return fmt.Sprint(n) }

// withBody puts a session description into a message.
func withBody(m, body string) string {
	return strings.Replace(m, "Content-Length: 0\r\n\r\n", fmt.Sprintf("Content-Type: application/sdp\r\nContent-Length: %d\r\n\r\n%s", len(body), body), 1)
}

//go:debug randseednop=0

// Command check decides one property.  It runs the workload in a child
// process and turns whatever happens to the child into a verdict.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	_ "verif/checks"
	"verif/mon"
)

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

const gosip = "github.com/jart/gosip/"

func main() {
	prop := flag.String("prop", "", "property id")
	root := flag.String("root", "/verif", "where evidence and replays go")
	replay := flag.String("replay", "", "replay file of an earlier violation")
	list := flag.Bool("list", false, "list the checks")
	child := flag.String("child", "", "internal: output directory of a child run")
	flag.Parse()
	if *list {
		for id := range mon.Checks {
			fmt.Println(id)
		}
		return
	}
	ck := mon.Checks[*prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", *prop)
		os.Exit(2)
	}
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := env("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	var only []mon.CaseID
	if *replay != "" {
		var v mon.Violation
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		seed, tier = v.Seed, v.Tier
		if only = v.Cases; only == nil {
			only = []mon.CaseID{}
		}
		if len(only) == 0 {
			only = nil // not tied to a case: run everything again
		}
	}
	known := loadKnown(filepath.Join(*root, "KNOWN_FINDINGS.txt"), *prop)
	budget := 150 * time.Second
	if tier == "thorough" {
		budget = 40 * time.Minute
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	if *child != "" {
		log.SetOutput(io.Discard) // gosip logs every dropped message
		x := mon.NewCtx(ck, tier, seed, only, budget, keys(known), filepath.Join(*child, "result.json"), filepath.Join(*child, "slots"))
		ck.Run(x)
		x.Finish()
		os.Exit(0)
	}

	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+*prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := supervise(ck, *prop, *root, *replay, dir, tier, seed, known, start, budget)
	os.RemoveAll(dir)
	os.Exit(code)
}

func keys(m map[string]string) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}

var knownRe = regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)

func loadKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if g := knownRe.FindStringSubmatch(l); g != nil && g[1] == prop {
			m[g[2]] = g[3]
		}
	}
	return m
}

type tail struct {
	head, end bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	if t.head.Len() < 64<<10 {
		t.head.Write(p)
	} else {
		if t.end.Len() > 64<<10 {
			t.end.Reset()
		}
		t.end.Write(p)
	}
	return len(p), nil
}
func (t *tail) String() string { return t.head.String() + t.end.String() }

func supervise(ck *mon.Check, prop, root, replay, dir, tier string, seed uint64, known map[string]string, start time.Time, budget time.Duration) int {
	args := []string{"-prop", prop, "-root", root, "-child", dir}
	if replay != "" {
		args = append(args, "-replay", replay)
	}
	cmd := exec.Command(os.Args[0], args...)
	var out tail
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = append(os.Environ(),
		"GORACE=log_path="+filepath.Join(dir, "race")+" halt_on_error=0 exitcode=0 history_size=2",
		"GOTRACEBACK=all",
		"VERIF_SEED="+strconv.FormatUint(seed, 10), "VERIF_TIER="+tier)
	hard := time.AfterFunc(budget*2+5*time.Minute, func() { cmd.Process.Kill() })
	err := cmd.Run()
	hard.Stop()

	var res mon.Result
	b, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
	ok := err == nil && rerr == nil && json.Unmarshal(b, &res) == nil
	if !ok {
		text := out.String()
		stanza := crashStanza(text)
		cases := mon.ReadSlots(filepath.Join(dir, "slots"))
		if stanza == "" || !strings.Contains(stanza, gosip) {
			fmt.Fprintf(os.Stderr, "check %s: no verdict: child ended with %v\n%s\n", prop, err, text)
			return 2
		}
		v := mon.Violation{Property: prop, Seed: seed, Tier: tier, Key: "crash", Cases: cases,
			Detail: "the program crashed\n" + stanza}
		if _, dup := known["crash"]; !dup {
			res.Violations = append(res.Violations, v)
		}
		res.Evals = int64(max(1, len(cases)))
		res.Samples = []string{cut(stanza, 1500)}
	}
	// Race reports.
	races, harnessRaces := 0, 0
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	var raceText string
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, r := range strings.Split(string(b), "==================") {
			if !strings.Contains(r, "DATA RACE") {
				continue
			}
			if strings.Contains(r, "verif/checks.setFlag") {
				continue // the harness changes settings while a call it gave up on still runs
			}
			if strings.Contains(r, gosip) {
				races++
				if raceText == "" {
					raceText = r
				}
			} else {
				harnessRaces++
				fmt.Fprintln(os.Stderr, "race inside the harness:", r)
			}
		}
	}
	if races > 0 {
		if ck.Race {
			res.Violations = append(res.Violations, mon.Violation{Property: prop, Seed: seed, Tier: tier, Key: "data-race",
				Detail: fmt.Sprintf("%d data race reports, first:\n%s", races, cut(raceText, 8000))})
		} else {
			fmt.Println("note: data race reported (decided by another property):", cut(raceText, 600))
		}
	}
	if harnessRaces > 0 && len(res.Violations) == 0 {
		return 2
	}

	// Evidence.
	if len(res.Samples) == 0 {
		res.Samples = []string{"none"}
	}
	cov := map[string]any{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                ck.Rule,
		"samples":             res.Samples,
		"observed":            res.Counters,
		"cases_per_part":      res.Parts,
		"race_reports":        races,
	}
	if res.Truncated {
		cov["stopped_by_time_budget"] = true
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": ck.Assumptions,
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": len(res.Violations),
	}
	if replay == "" {
		eb, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(eb, '\n'), 0o644)
	}

	seenKnown := map[string]bool{}
	for _, v := range res.Known {
		if !seenKnown[v.Key] {
			seenKnown[v.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, known[v.Key])
		}
	}
	fmt.Printf("%s: %d evaluations, %d distinct, %d violations, %.1fs\n", prop, res.Evals, res.Distinct, len(res.Violations), time.Since(start).Seconds())
	for _, k := range sortedKeys(res.Counters) {
		fmt.Printf("  %-40s %d\n", k, res.Counters[k])
	}
	if len(res.Violations) == 0 {
		return 0
	}
	rdir := filepath.Join(root, "build", "replay")
	os.MkdirAll(rdir, 0o755)
	for i, v := range res.Violations {
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, i))
		vb, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, vb, 0o644)
		if i < 3 {
			fmt.Printf("--- %s %v\n%s\n", v.Key, v.Cases, cut(v.Detail, 3000))
		}
		if i == 0 {
			defer fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
	}
	return 1
}

// crashStanza returns the crash message with the stack of the goroutine that
// crashed.
func crashStanza(s string) string {
	i := -1
	for _, m := range []string{"panic: ", "fatal error: ", "SIGSEGV", "unexpected fault address", "SIGBUS", "SIGILL"} {
		if j := strings.Index(s, m); j >= 0 && (i < 0 || j < i) {
			i = j
		}
	}
	if i < 0 {
		return ""
	}
	s = s[i:]
	parts := strings.SplitN(s, "\n\ngoroutine ", 3)
	if strings.Contains(parts[0], "goroutine ") || len(parts) == 1 {
		return cut(parts[0], 8000)
	}
	return cut(parts[0]+"\n\ngoroutine "+parts[1], 8000)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...[cut]"
	}
	return s
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	for i := range k {
		for j := i + 1; j < len(k); j++ {
			if k[j] < k[i] {
				k[i], k[j] = k[j], k[i]
			}
		}
	}
	return k
}

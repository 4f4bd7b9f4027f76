//go:debug default=go1.20

// Command harness decides the properties of mnemonikey by generated-input search.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
	_ "time/tzdata"
)

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func main() {
	// worker modes used by checks themselves
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		os.Exit(workerMain(os.Args[2:]))
	}
	testing.Init()
	var (
		id       = flag.String("property", "", "property id")
		replayF  = flag.String("replay", "", "replay file")
		evidence = flag.String("evidence", "", "evidence file to write")
		replays  = flag.String("replays", "", "directory for replay files")
		journalD = flag.String("journal", "", "directory of running cases (set by the parent)")
		budget   = flag.Duration("budget", 0, "time budget")
		only     = flag.String("sub", "", "run only sub-checks matching this regexp")
		list     = flag.Bool("list", false, "list sub-checks")
	)
	flag.Parse()
	if flag.NArg() > 0 {
		fmt.Fprintln(os.Stderr, "unexpected argument", flag.Arg(0))
		os.Exit(2)
	}
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	if *list {
		for id, p := range properties {
			for _, s := range p.Subs {
				fmt.Println(id, s.name())
			}
		}
		return
	}
	p := properties[*id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(2)
	}
	if *replayF != "" {
		os.Exit(doReplay(p, *replayF))
	}
	if *journalD == "" {
		os.Exit(parent(p, *replays, *evidence))
	}
	journalDir = *journalD
	seed, err := strconv.ParseUint(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = shardSeed(0, os.Getenv("VERIF_SEED"))
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if *budget == 0 {
		*budget = 60 * time.Second
		if thorough {
			*budget = 12 * time.Minute
		}
	}
	t0 := time.Now()
	st := &runState{prop: p, thorough: thorough, seed: seed, deadline: t0.Add(*budget)}
	report := func(v violation) {
		fmt.Printf("%s/%s: %s\ncase: %s\n", v.Property, v.Sub, v.Error, clip(string(v.Case), 2000))
		path := writeReplay(*replays, v)
		writeEvidence(*evidence, st, t0, 1)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		os.Exit(1)
	}
	go watchdog(st, report)
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	var todo []subCheck
	for _, s := range p.Subs {
		if re == nil || re.MatchString(s.name()) {
			todo = append(todo, s)
		}
	}
	for i, s := range todo {
		st.slices = len(todo) - i
		s.run(st)
		ss := st.stats
		fmt.Printf("%s %-28s %8d cases, %8d distinct non-trivial, %5.1f s", p.ID, s.name(), ss.Evals, ss.Distinct, ss.Wall)
		for _, l := range sortedLabels(ss.Labels) {
			fmt.Printf(" %s=%d", l, ss.Labels[l])
		}
		if ss.Truncated {
			fmt.Print(" (stopped by time budget)")
		}
		fmt.Println()
		if st.viol != nil {
			report(*st.viol)
		}
		if st.infraErr != nil {
			fmt.Fprintln(os.Stderr, st.infraErr)
			os.Exit(2)
		}
	}
	writeEvidence(*evidence, st, t0, 0)
	fmt.Printf("%s: held on everything explored (%.1f s)\n", p.ID, time.Since(t0).Seconds())
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// parent runs the search in a child process, so that a crash of the process (not just a panic)
// is attributed to the case that was running.
func parent(p *Property, replays, evidence string) int {
	dir, err := os.MkdirTemp("", "verif-journal-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, append(append([]string{}, os.Args[1:]...), "-journal", dir)...)
	var errBuf bytes.Buffer
	cmd.Stdout, cmd.Stderr = os.Stdout, &tee{&errBuf}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+dir)
	err = cmd.Run()
	if err == nil {
		return 0
	}
	var ee *exec.ExitError
	if !errors.As(err, &ee) {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	code := ee.ExitCode()
	if code == 1 && !bytes.Contains(errBuf.Bytes(), []byte("fatal error: ")) {
		return 1
	}
	crash := code == 66 || bytes.Contains(errBuf.Bytes(), []byte("fatal error: ")) || bytes.Contains(errBuf.Bytes(), []byte("WARNING: DATA RACE")) ||
		bytes.Contains(errBuf.Bytes(), []byte("\npanic: ")) || bytes.HasPrefix(errBuf.Bytes(), []byte("panic: ")) || code != 2
	if !crash {
		return 2
	}
	// find the running case that crashes
	var cands []violation
	fs, _ := filepath.Glob(filepath.Join(dir, "*.json"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		var v violation
		if json.Unmarshal(b, &v) == nil && v.Property != "" {
			cands = append(cands, v)
		}
	}
	msg := firstReport(errBuf.String())
	for _, v := range cands {
		f := filepath.Join(dir, "cand.json")
		b, _ := json.Marshal(v)
		os.WriteFile(f, b, 0600)
		for i := 0; i < 3; i++ {
			c := exec.Command(exe, "-property", p.ID, "-replay", f)
			c.Env = cmd.Env
			out, err := c.CombinedOutput()
			var e2 *exec.ExitError
			if errors.As(err, &e2) && (e2.ExitCode() != 2 || bytes.Contains(out, []byte("fatal error: ")) || bytes.Contains(out, []byte("\ngoroutine "))) {
				v.Error = "the process died: " + firstReport(string(out))
				return died(v, replays, evidence)
			}
		}
	}
	if code == 66 && len(cands) > 0 {
		// a data race report is never a false one; the schedule just did not come back
		v := cands[0]
		v.Error = msg
		return died(v, replays, evidence)
	}
	fmt.Fprintf(os.Stderr, "the search process died (exit %d) and no running case reproduces it\n", code)
	return 2
}

func died(v violation, replays, evidence string) int {
	path := writeReplay(replays, v)
	st := &runState{prop: properties[v.Property], seed: v.Seed, thorough: v.Tier == "thorough"}
	writeEvidence(evidence, st, time.Now(), 1)
	fmt.Printf("%s/%s: %s\ncase: %s\nVIOLATION property=%s replay=%s\n", v.Property, v.Sub, clip(v.Error, 4000), clip(string(v.Case), 2000), v.Property, path)
	return 1
}

func firstReport(s string) string {
	for _, m := range []string{"WARNING: DATA RACE", "fatal error: ", "panic: "} {
		if i := strings.Index(s, m); i >= 0 {
			return clip(s[i:], 3000)
		}
	}
	return clip(s, 1000)
}

type tee struct{ b *bytes.Buffer }

func (t *tee) Write(p []byte) (int, error) {
	os.Stderr.Write(p)
	return t.b.Write(p)
}

func writeReplay(dir string, v violation) string {
	if dir == "" {
		dir = "."
	}
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", v.Property, v.Sub))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
	return path
}

func doReplay(p *Property, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range p.Subs {
		if s.name() != v.Sub {
			continue
		}
		done := make(chan error, 1)
		go func() { done <- s.replay(v.Case) }()
		select {
		case err = <-done:
		case <-time.After(5 * time.Minute):
			err = fmt.Errorf("does not terminate")
		}
		var ie infraError
		if errors.As(err, &ie) {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if err != nil {
			fmt.Printf("%s/%s: %s\nVIOLATION property=%s replay=%s\n", v.Property, v.Sub, err, v.Property, file)
			return 1
		}
		fmt.Printf("%s/%s: the case passes\n", v.Property, v.Sub)
		return 0
	}
	fmt.Fprintf(os.Stderr, "no sub-check %q\n", v.Sub)
	return 2
}

func writeEvidence(path string, st *runState, t0 time.Time, violations int) {
	if path == "" {
		return
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	var evals, distinct int64
	var rules []string
	var samples []any
	exhaustive := []string{}
	for _, s := range st.all {
		evals += s.Evals
		distinct += s.Distinct
		rules = append(rules, s.Name+": "+s.Rule)
		for _, x := range s.Samples {
			samples = append(samples, map[string]any{"sub": s.Name, "case": x})
		}
		if s.Exhaustive {
			exhaustive = append(exhaustive, s.Name)
		}
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": st.prop.ID, "tier": tierName(st.thorough), "seed": st.seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": distinct, "rule": strings.Join(rules, " | "),
			"samples": samples, "sub_checks": st.all, "exhaustively_enumerated": exhaustive,
		},
		"assumptions": st.prop.Assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  violations,
	}
	if st.prop.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Dir(path), 0755)
		err = os.WriteFile(path, append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
}

package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Property is one entry of properties.jsonl with its sub-checks.
type Property struct {
	ID          string
	Subs        []subCheck
	Assumptions []string
	NeedCLI     bool
}

type subCheck interface {
	name() string
	rule() string
	run(st *runState)
	replay(raw json.RawMessage) error
}

// Sub is a sub-check over cases of type C, either generated (Gen) or enumerated (Enum).
type Sub[C any] struct {
	Name  string
	Rule  string // how cases are made and what makes one non-trivial
	Gen   func(t *rapid.T) C
	Enum  func(thorough bool, yield func(C) bool)
	Check func(r *Rec, c C) error

	Quick, Thorough int           // generated cases per tier
	Limit           time.Duration // time after which one case counts as not terminating
	Confirm         int           // re-runs of a failing case of which one has to fail again
	Workers         int           // 0: one per core
	MaxTime         time.Duration // quick-tier limit for this sub-check, 0: property budget
}

func (s *Sub[C]) name() string { return s.Name }
func (s *Sub[C]) rule() string { return s.Rule }

// Rec collects what one evaluation wants to report.
type Rec struct {
	labels  []string
	trivial bool
}

// Label counts a case class.
func (r *Rec) Label(s string) { r.labels = append(r.labels, s) }

// Trivial marks the case as trivial by the sub-check's rule.
func (r *Rec) Trivial() { r.trivial = true }

// infraError says that the machinery, not the code under test, failed.
type infraError struct{ err error }

func (e infraError) Error() string { return "infrastructure: " + e.err.Error() }

func infra(format string, a ...any) error { return infraError{fmt.Errorf(format, a...)} }

type violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"verif_seed"`
	Tier     string          `json:"tier"`
}

type subStats struct {
	Name       string         `json:"name"`
	Rule       string         `json:"rule"`
	Evals      int64          `json:"evaluations"`
	Distinct   int64          `json:"distinct_nontrivial"`
	Exhaustive bool           `json:"exhaustive"`
	Truncated  bool           `json:"stopped_by_time_budget"`
	Labels     map[string]int `json:"labels,omitempty"`
	Wall       float64        `json:"wall_s"`
	Samples    []any          `json:"samples"`
}

type runState struct {
	prop     *Property
	thorough bool
	seed     uint64
	deadline time.Time
	slices   int // sub-checks still to run, to share the remaining time

	mu       sync.Mutex
	stats    *subStats
	all      []*subStats
	seen     map[uint64]struct{}
	viol     *violation
	infraErr error
	stop     atomic.Bool
}

var journalDir string

type journal struct {
	f     *os.File
	start atomic.Int64 // unix nano of the running case, 0 if idle
	limit time.Duration
	cur   atomic.Pointer[violation]
}

var (
	journals   []*journal
	journalsMu sync.Mutex
)

func newJournal(limit time.Duration) *journal {
	j := &journal{limit: limit}
	journalsMu.Lock()
	defer journalsMu.Unlock()
	if journalDir != "" {
		f, err := os.Create(filepath.Join(journalDir, fmt.Sprintf("%d.json", len(journals))))
		if err == nil {
			j.f = f
		}
	}
	journals = append(journals, j)
	return j
}

func (j *journal) begin(v *violation) {
	j.cur.Store(v)
	j.start.Store(time.Now().UnixNano())
	if j.f != nil {
		b, _ := json.Marshal(v)
		j.f.Truncate(0)
		j.f.WriteAt(b, 0)
	}
}

func (j *journal) end() { j.start.Store(0) }

func (j *journal) close() {
	j.start.Store(0)
	if j.f != nil {
		j.f.Truncate(0)
		j.f.Close()
		os.Remove(j.f.Name())
	}
}

// evalSafe runs a check and turns panics into errors.
func evalSafe[C any](check func(*Rec, C) error, r *Rec, c C) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if ie, ok := p.(infraError); ok {
				err = ie
				return
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return check(r, c)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func (s *Sub[C]) replay(raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return infra("cannot read case: %v", err)
	}
	return evalSafe(s.Check, &Rec{}, c)
}

// eval runs one case with bookkeeping; it returns the violation error, if any.
func (s *Sub[C]) eval(st *runState, j *journal, c C, shrinking bool) error {
	raw, err := json.Marshal(c)
	if err != nil {
		st.fail(infra("cannot write case: %v", err))
		return nil
	}
	v := &violation{Property: st.prop.ID, Sub: s.Name, Case: raw, Seed: st.seed, Tier: tierName(st.thorough)}
	var rec *Rec
	for try := 0; ; try++ {
		rec = &Rec{}
		j.begin(v)
		err = evalSafe(s.Check, rec, c)
		j.end()
		var ie infraError
		if err != nil && errors.As(err, &ie) {
			if try < 3 {
				time.Sleep(time.Duration(try+1) * 300 * time.Millisecond)
				continue
			}
			st.fail(fmt.Errorf("%s: %w; case %s", s.Name, err, raw))
			return nil
		}
		break
	}
	if err != nil && s.Confirm > 0 && !shrinking {
		again := false
		for i := 0; i < s.Confirm && !again; i++ {
			e2 := evalSafe(s.Check, &Rec{}, c)
			var ie infraError
			if e2 != nil && !errors.As(e2, &ie) {
				again, err = true, e2
			}
		}
		if !again {
			fmt.Fprintf(os.Stderr, "note: %s/%s: not confirmed in %d re-runs, ignored: %v; case %s\n", st.prop.ID, s.Name, s.Confirm, err, clip(string(raw), 3000))
			err = nil
		}
	}
	h := sha256.Sum256(raw)
	key := binary.BigEndian.Uint64(h[:])
	st.mu.Lock()
	ss := st.stats
	ss.Evals++
	for _, l := range rec.labels {
		ss.Labels[l]++
	}
	if !rec.trivial {
		if _, dup := st.seen[key]; !dup {
			st.seen[key] = struct{}{}
			ss.Distinct++
			if len(ss.Samples) < 3 && len(raw) < 3000 {
				ss.Samples = append(ss.Samples, json.RawMessage(raw))
			}
		}
	}
	st.mu.Unlock()
	return err
}

func (st *runState) fail(err error) {
	st.mu.Lock()
	defer st.mu.Unlock()
	if st.infraErr == nil {
		st.infraErr = err
	}
	st.stop.Store(true)
}

func (st *runState) violate(v violation) {
	st.mu.Lock()
	defer st.mu.Unlock()
	if st.viol == nil {
		st.viol = &v
	}
	st.stop.Store(true)
}

func tierName(th bool) string {
	if th {
		return "thorough"
	}
	return "quick"
}

// shrinkTime bounds the search for a smaller failing case.
const shrinkTime = 40 * time.Second

var rapidMu sync.Mutex

// tb is the rapid.TB of one shard.
type tb struct {
	name   string
	failed bool
}

func (*tb) Helper()                     {}
func (t *tb) Name() string              { return t.name }
func (*tb) Logf(string, ...any)         {}
func (*tb) Log(...any)                  {}
func (*tb) Skipf(string, ...any)        { runtime.Goexit() }
func (*tb) Skip(...any)                 { runtime.Goexit() }
func (*tb) SkipNow()                    { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.debug(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; t.debug(f, a...); runtime.Goexit() }
func (t *tb) Fatal(...any)              { t.failed = true; runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
func (t *tb) debug(f string, a ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, t.name+": "+f+"\n", a...)
	}
}

func shardSeed(seed uint64, parts ...any) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprint(append([]any{seed}, parts...)...)))
	s := binary.BigEndian.Uint64(h[:])
	if s == 0 {
		s = 1
	}
	return s
}

func (s *Sub[C]) run(st *runState) {
	t0 := time.Now()
	st.stats = &subStats{Name: s.Name, Rule: s.Rule, Labels: map[string]int{}}
	st.seen = map[uint64]struct{}{}
	st.all = append(st.all, st.stats)
	workers := s.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	limit := s.Limit
	if limit == 0 {
		limit = 120 * time.Second
	}
	// share the remaining time over the sub-checks still to run, letting each use up to twice its share
	end := st.deadline
	if left := time.Until(st.deadline); st.slices > 1 {
		end = time.Now().Add(left * 2 / time.Duration(st.slices+1))
	}
	if s.MaxTime > 0 && !st.thorough {
		if e := time.Now().Add(s.MaxTime); e.Before(end) {
			end = e
		}
	}
	over := func() bool { return st.stop.Load() || time.Now().After(end) }

	var wg sync.WaitGroup
	if s.Enum != nil {
		ch := make(chan C, workers*4)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				j := newJournal(limit)
				defer j.close()
				for c := range ch {
					if st.stop.Load() {
						continue
					}
					if err := s.eval(st, j, c, false); err != nil {
						raw, _ := json.Marshal(c)
						st.violate(violation{st.prop.ID, s.Name, err.Error(), raw, st.seed, tierName(st.thorough)})
					}
				}
			}()
		}
		complete := true
		s.Enum(st.thorough, func(c C) bool {
			if over() {
				complete = false
				return false
			}
			ch <- c
			return true
		})
		close(ch)
		wg.Wait()
		st.stats.Exhaustive = complete && !st.stop.Load()
		st.stats.Truncated = !complete
	}
	if s.Gen != nil {
		n := s.Quick
		if st.thorough {
			n = s.Thorough
		}
		var truncated atomic.Bool
		per := (n + workers - 1) / workers
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				j := newJournal(limit)
				defer j.close()
				var last *violation
				rapidMu.Lock()
				held := true
				unlock := func() {
					if held {
						held = false
						rapidMu.Unlock()
					}
				}
				defer unlock()
				flag.Set("rapid.checks", fmt.Sprint(per))
				flag.Set("rapid.seed", fmt.Sprint(shardSeed(st.seed, st.prop.ID, s.Name, w)))
				done := make(chan struct{})
				go func() {
					defer close(done)
					failing, since := false, time.Time{}
					defer func() {
						if p := recover(); p != nil {
							st.fail(fmt.Errorf("rapid engine: %v\n%s", p, debug.Stack()))
						}
					}()
					rapid.Check(&tb{name: fmt.Sprintf("%s/%s#%d", st.prop.ID, s.Name, w)}, func(t *rapid.T) {
						unlock()
						if !failing && over() {
							if !st.stop.Load() {
								truncated.Store(true)
							}
							return
						}
						if failing && time.Since(since) > shrinkTime {
							return // enough: the last failing case is reported
						}
						c := s.Gen(t)
						if err := s.eval(st, j, c, failing); err != nil {
							if !failing {
								failing, since = true, time.Now()
								st.stop.Store(true) // the other shards need not look further
							}
							raw, _ := json.Marshal(c)
							last = &violation{st.prop.ID, s.Name, err.Error(), raw, st.seed, tierName(st.thorough)}
							t.Fatalf("violation")
						}
					})
				}()
				<-done
				if last != nil {
					st.violate(*last)
				}
			}(w)
		}
		wg.Wait()
		st.stats.Truncated = truncated.Load()
	}
	st.stats.Wall = time.Since(t0).Seconds()
}

// watchdog ends the process with a violation when one case does not terminate or eats all memory.
func watchdog(st *runState, report func(violation)) {
	for {
		time.Sleep(2 * time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		journalsMu.Lock()
		js := append([]*journal(nil), journals...)
		journalsMu.Unlock()
		var oldest *journal
		for _, j := range js {
			s := j.start.Load()
			if s == 0 {
				continue
			}
			if oldest == nil || s < oldest.start.Load() {
				oldest = j
			}
			if age := time.Since(time.Unix(0, s)); age > j.limit {
				v := *j.cur.Load()
				v.Error = fmt.Sprintf("does not terminate: still running after %v", age.Round(time.Second))
				report(v)
			}
		}
		if ms.HeapAlloc > 14<<30 && oldest != nil {
			v := *oldest.cur.Load()
			v.Error = fmt.Sprintf("memory grows without bound: %d MB allocated", ms.HeapAlloc>>20)
			report(v)
		}
	}
}

func sortedLabels(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

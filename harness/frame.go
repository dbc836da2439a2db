package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Sub is one executable sub-check of a property.
type Sub struct {
	Prop, Name      string
	Rule            string // how cases are made, what is non-trivial
	Quick, Thorough int    // number of generated cases per tier
	Race            bool   // also decided under the race detector
	Fn              func(t *rapid.T, c *C)
	Direct          func(c *C) error // enumerated/replayed cases that need no generator
}

var subs []*Sub

func register(s *Sub) { subs = append(subs, s) }

// Known is a recorded, unrepaired defect: a direct reproducer.
type Known struct {
	Prop, ID, What string
	Repro          func() (bool, string)
}

var knowns []*Known

// C collects coverage for one worker run.
type C struct {
	sub      *Sub
	journal  string
	evals    int
	nontriv  map[uint64]struct{}
	labels   map[string]int
	samples  []string
	artefact []byte
	artName  string

	caseStart atomic.Int64 // unix nano, 0 when idle
	caseCPU   atomic.Int64
	mu        sync.Mutex
}

func newC(s *Sub, journal string) *C {
	return &C{sub: s, journal: journal, nontriv: map[uint64]struct{}{}, labels: map[string]int{}}
}

// Begin journals the case that is about to be executed against the code under test.
func (c *C) Begin(name string, artefact []byte) {
	c.artName, c.artefact = name, artefact
	if c.journal != "" {
		_ = os.WriteFile(c.journal, artefact, 0o644)
	}
	c.caseCPU.Store(int64(cpuTime()))
	c.caseStart.Store(time.Now().UnixNano())
}

// End marks the end of the executed case.
func (c *C) End() { c.caseStart.Store(0) }

// Eval counts an evaluated case.
func (c *C) Eval() { c.evals++ }

// NonTrivial records the key of a non-trivial case.
func (c *C) NonTrivial(key []byte) {
	h := fnv.New64a()
	h.Write([]byte(c.sub.Name))
	h.Write(key)
	c.nontriv[h.Sum64()] = struct{}{}
}

// Label counts a case class.
func (c *C) Label(l string) { c.labels[l]++ }

// LabelIf counts a case class when cond holds.
func (c *C) LabelIf(cond bool, l string) {
	if cond {
		c.labels[l]++
	}
}

// Sample keeps a few written-out cases.
func (c *C) Sample(s string) {
	if len(c.samples) < 3 && c.evals%7 == 3 {
		if len(s) > 1500 {
			s = s[:1500] + "...(truncated)"
		}
		c.samples = append(c.samples, s)
	}
}

type workerResult struct {
	Status   string         `json:"status"` // ok, fail, flaky
	Evals    int            `json:"evals"`
	Distinct int            `json:"distinct"`
	Labels   map[string]int `json:"labels"`
	Samples  []string       `json:"samples"`
	Message  string         `json:"message,omitempty"`
	Draws    string         `json:"draws,omitempty"`
	Bits     string         `json:"bits,omitempty"`
	ArtName  string         `json:"artefact_name,omitempty"`
	Artefact []byte         `json:"artefact,omitempty"`
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// tbImpl is a minimal testing.TB stand-in for rapid.
type tbImpl struct {
	name   string
	buf    bytes.Buffer
	failed bool
	errMsg string
}

func (t *tbImpl) Helper()      {}
func (t *tbImpl) Name() string { return t.name }
func (t *tbImpl) Logf(format string, args ...any) {
	if t.buf.Len() < 1<<20 {
		fmt.Fprintf(&t.buf, format+"\n", args...)
	}
}
func (t *tbImpl) Log(args ...any) {
	if t.buf.Len() < 1<<20 {
		fmt.Fprintln(&t.buf, args...)
	}
}
func (t *tbImpl) Skipf(format string, args ...any) { t.SkipNow() }
func (t *tbImpl) Skip(args ...any)                 { t.SkipNow() }
func (t *tbImpl) SkipNow()                         { runtime.Goexit() }
func (t *tbImpl) Errorf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if t.errMsg == "" {
		t.errMsg = s
	}
	t.Logf("%s", s)
	t.failed = true
}
func (t *tbImpl) Error(args ...any)                 { t.Errorf("%s", fmt.Sprintln(args...)) }
func (t *tbImpl) Fatalf(format string, args ...any) { t.Errorf(format, args...); t.FailNow() }
func (t *tbImpl) Fatal(args ...any)                 { t.Error(args...); t.FailNow() }
func (t *tbImpl) FailNow()                          { t.failed = true; runtime.Goexit() }
func (t *tbImpl) Fail()                             { t.failed = true }
func (t *tbImpl) Failed() bool                      { return t.failed }

const (
	cpuBound  = 90 * time.Second
	idleBound = 240 * time.Second
)

// watchdog turns non-termination of the executed case into an attributed exit.
func (c *C) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		st := c.caseStart.Load()
		if st == 0 {
			continue
		}
		wall := time.Since(time.Unix(0, st))
		cpu := cpuTime() - time.Duration(c.caseCPU.Load())
		hang := cpu > cpuBound
		blocked := wall > idleBound && cpu < 10*time.Second
		if !hang && !blocked {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if st != c.caseStart.Load() {
			continue
		}
		kind := "busy"
		if blocked {
			kind = "blocked"
		}
		fmt.Fprintf(os.Stderr, "VERIF-HANG %s wall=%s cpu=%s\n%s\n", kind, wall, cpu, buf)
		os.Exit(77)
	}
}

func runWorker(s *Sub, dir string, failfile string) {
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(200)
	c := newC(s, filepath.Join(dir, "journal"))
	go c.watchdog()
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	res := workerResult{Status: "ok"}
	done := make(chan struct{})
	tb := &tbImpl{name: s.Prop + "-" + s.Name}
	go func() {
		defer close(done)
		if s.Direct != nil {
			func() {
				defer func() {
					if r := recover(); r != nil {
						tb.Errorf("panic: %v\n%s", r, debug.Stack())
					}
				}()
				if err := s.Direct(c); err != nil {
					tb.Errorf("%v", err)
				}
			}()
			return
		}
		rapid.Check(tb, func(t *rapid.T) {
			defer c.End()
			s.Fn(t, c)
		})
	}()
	<-done
	c.caseStart.Store(0)
	res.Evals, res.Distinct = c.evals, len(c.nontriv)
	res.Labels, res.Samples = c.labels, c.samples
	if tb.failed {
		res.Status = "fail"
		res.Message = tb.errMsg
		if strings.Contains(tb.errMsg, "[rapid] only generated") {
			res.Status = "generr"
		}
		out := tb.buf.String()
		if len(out) > 60000 {
			out = out[len(out)-60000:]
		}
		res.Draws = out
		res.ArtName, res.Artefact = c.artName, c.artefact
		if m, _ := filepath.Glob(filepath.Join(dir, "testdata", "rapid", "*", "*.fail")); len(m) > 0 {
			sort.Strings(m)
			b, _ := os.ReadFile(m[len(m)-1])
			res.Bits = string(b)
		}
	}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(dir, "result.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// directChecks is the number of checks asked of a sub-check that needs no generator.
func directChecks() int {
	if f := flag.Lookup("rapid.checks"); f != nil {
		if n, err := strconv.Atoi(f.Value.String()); err == nil {
			return n
		}
	}
	return 1
}

// Command check decides one property of go3mf by generated-input search.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

type replayFile struct {
	Property string `json:"property"`
	Sub      string `json:"sub"`
	Race     bool   `json:"race"`
	Seed     uint64 `json:"seed"`
	Checks   int    `json:"checks"`
	Tier     string `json:"tier"`
	Kind     string `json:"kind"`
	Message  string `json:"message"`
	Draws    string `json:"draws,omitempty"`
	ArtName  string `json:"artefact_name,omitempty"`
	Artefact string `json:"artefact,omitempty"`
	ArtHex   []byte `json:"artefact_bytes,omitempty"`
	Bits     string `json:"rapid_failfile,omitempty"`
}

type outcome struct {
	sub    *Sub
	race   bool
	seed   uint64
	checks int
	res    workerResult
	kind   string // ok, violation, error
	detail string
	wall   float64
	art    []byte
}

var (
	fWorker  = flag.String("worker", "", "internal: run one sub-check (prop/name)")
	fDir     = flag.String("dir", "", "internal: worker directory")
	fVerif   = flag.String("verif", "/verif", "verif root")
	fRaceBin = flag.String("racebin", "", "race-enabled build of this program")
	fOnly    = flag.String("only", "", "restrict to sub-checks whose name matches")
	fMult    = flag.Float64("mult", 1, "multiply case counts")
	fList    = flag.Bool("list", false, "list sub-checks")
	fNoRace  = flag.Bool("norace", false, "skip race builds")
	fReplay  = flag.String("replay", "", "replay a file")
	fNeed    = flag.String("needrace", "", "exit 0 if property needs a race build")
)

func main() {
	testing.Init()
	flag.Parse()
	if *fList {
		for _, s := range subs {
			fmt.Printf("%s %-28s quick=%d thorough=%d race=%v\n", s.Prop, s.Name, s.Quick, s.Thorough, s.Race)
		}
		return
	}
	if *fNeed != "" {
		for _, s := range subs {
			if s.Prop == *fNeed && s.Race {
				return
			}
		}
		os.Exit(1)
	}
	if *fWorker != "" {
		p := strings.SplitN(*fWorker, "/", 2)
		for _, s := range subs {
			if s.Prop == p[0] && s.Name == p[1] {
				runWorker(s, *fDir, "")
				return
			}
		}
		fmt.Fprintln(os.Stderr, "unknown sub", *fWorker)
		os.Exit(2)
	}
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	if flag.NArg() != 2 {
		fmt.Fprintln(os.Stderr, "usage: check <property> quick|thorough")
		os.Exit(2)
	}
	os.Exit(runProperty(flag.Arg(0), flag.Arg(1)))
}

func verifSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	n, err := strconv.ParseUint(strings.TrimPrefix(s, "-"), 10, 64)
	if err != nil {
		h := fnv.New64a()
		h.Write([]byte(s))
		n = h.Sum64() >> 1
	}
	if s == "" {
		n = 1
	}
	return n
}

func subSeed(base uint64, s *Sub, race bool, tier string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%v|%s", base, s.Prop, s.Name, race, tier)
	v := h.Sum64() >> 2
	if v == 0 {
		v = 1
	}
	return v
}

func runProperty(prop, tier string) int {
	start := time.Now()
	if tier != "quick" && tier != "thorough" {
		fmt.Fprintln(os.Stderr, "bad tier", tier)
		return 2
	}
	type job struct {
		s    *Sub
		race bool
	}
	var jobs []job
	for _, s := range subs {
		if s.Prop != prop || (*fOnly != "" && !strings.Contains(s.Name, *fOnly)) {
			continue
		}
		if s.Race && !*fNoRace {
			jobs = append(jobs, job{s, true})
		} else {
			jobs = append(jobs, job{s, false})
		}
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "no checks for", prop)
		return 2
	}
	base := verifSeed()
	outs := make([]*outcome, len(jobs))
	sem := make(chan struct{}, 5)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			n := j.s.Quick
			if tier == "thorough" {
				n = j.s.Thorough
			}
			n = int(float64(n) * *fMult)
			if n < 1 {
				n = 1
			}
			outs[i] = runSub(j.s, j.race, subSeed(base, j.s, j.race, tier), n, "")
		}(i, j)
	}
	wg.Wait()

	rc := 0
	violations := 0
	listed := listedKnown(*fVerif)
	for _, k := range knowns {
		if k.Prop != prop {
			continue
		}
		if hit, what := runKnown(k); hit && listed[k.Prop+" "+k.ID] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
		}
	}
	for _, o := range outs {
		switch o.kind {
		case "violation":
			violations++
			path := writeReplay(o, tier)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  sub-check %s: %s\n", o.sub.Name, firstLines(o.detail, 30))
			rc = 1
		case "error":
			fmt.Fprintf(os.Stderr, "ERROR sub-check %s: %s\n", o.sub.Name, firstLines(o.detail, 60))
		}
	}
	if rc == 0 {
		for _, o := range outs {
			if o.kind == "error" {
				rc = 2
			}
		}
	}
	writeEvidence(prop, tier, base, outs, violations, time.Since(start).Seconds())
	for _, o := range outs {
		fmt.Printf("  %-30s %-9s cases=%d distinct-nontrivial=%d wall=%.1fs\n", o.sub.Name, o.kind, o.res.Evals, o.res.Distinct, o.wall)
	}
	fmt.Printf("%s %s: seed=%d rc=%d wall=%.1fs\n", prop, tier, base, rc, time.Since(start).Seconds())
	return rc
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n")
}

func runSub(s *Sub, race bool, seed uint64, checks int, failfile string) *outcome {
	o := &outcome{sub: s, race: race, seed: seed, checks: checks}
	t0 := time.Now()
	defer func() { o.wall = time.Since(t0).Seconds() }()
	dir, err := os.MkdirTemp("", "verif-worker-")
	if err != nil {
		o.kind, o.detail = "error", err.Error()
		return o
	}
	defer os.RemoveAll(dir)
	bin, err := os.Executable()
	if err != nil {
		o.kind, o.detail = "error", err.Error()
		return o
	}
	if race {
		if *fRaceBin == "" {
			o.kind, o.detail = "error", "race build missing"
			return o
		}
		bin = *fRaceBin
	}
	args := []string{"-worker", s.Prop + "/" + s.Name, "-dir", dir,
		"-rapid.seed", strconv.FormatUint(seed, 10), "-rapid.checks", strconv.Itoa(checks),
		"-rapid.shrinktime", "20s"}
	if failfile != "" {
		args = append(args, "-rapid.failfile", failfile)
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "TMPDIR="+dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var stderr bytes.Buffer
	cmd.Stderr = &limitedWriter{b: &stderr, n: 4 << 20}
	cmd.Stdout = cmd.Stderr
	runErr := cmd.Run()
	if b, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil && json.Unmarshal(b, &o.res) == nil && runErr == nil {
		switch o.res.Status {
		case "ok":
			o.kind = "ok"
		case "generr":
			o.kind, o.detail = "error", o.res.Message
		default:
			if strings.Contains(o.res.Message, "flaky test, can not reproduce") && !s.Race {
				// A failure of a deterministic property that does not reproduce on the
				// same bits: still the code's behaviour (schedule dependent).
				o.kind, o.detail = "violation", o.res.Message
			} else {
				o.kind, o.detail = "violation", o.res.Message
			}
			o.art = o.res.Artefact
		}
		return o
	}
	// The worker died. Decide whether the code under test killed it.
	text := stderr.String()
	j, jerr := os.ReadFile(filepath.Join(dir, "journal"))
	o.art = j
	if cls := crashClass(text); cls != "" && jerr == nil {
		o.kind, o.detail = "violation", cls+"\n"+crashExcerpt(text)
		o.res.Evals = 1
		return o
	}
	o.kind, o.detail = "error", fmt.Sprintf("worker died: %v\n%s", runErr, tail(text, 3000))
	return o
}

type limitedWriter struct {
	mu sync.Mutex
	b  *bytes.Buffer
	n  int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var crashMarks = []struct{ mark, class string }{
	{"WARNING: DATA RACE", "data race"},
	{"VERIF-HANG busy", "does not terminate (CPU bound exceeded on one small case)"},
	{"VERIF-HANG blocked", "blocks forever"},
	{"goroutine stack exceeds", "unbounded recursion (stack overflow)"},
	{"concurrent map", "concurrent map access"},
	{"all goroutines are asleep", "deadlock"},
	{"cannot allocate memory", "allocation out of proportion to the input"},
	{"out of memory", "allocation out of proportion to the input"},
	{"unexpected fault address", "memory fault"},
	{"panic: ", "panic in a background goroutine"},
}

const modPath = "github.com/hpinc/go3mf"

func crashClass(text string) string {
	for _, m := range crashMarks {
		if i := strings.Index(text, m.mark); i >= 0 {
			// Require a frame of the code under test near the report.
			if strings.Contains(text[i:], modPath) {
				return m.class
			}
		}
	}
	return ""
}

func crashExcerpt(text string) string {
	for _, m := range crashMarks {
		if i := strings.Index(text, m.mark); i >= 0 {
			return firstLines(text[i:], 60)
		}
	}
	return firstLines(text, 60)
}

func writeReplay(o *outcome, tier string) string {
	dir := filepath.Join(*fVerif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	r := replayFile{Property: o.sub.Prop, Sub: o.sub.Name, Race: o.race, Seed: o.seed, Checks: o.checks, Tier: tier,
		Kind: "violation", Message: o.detail, Draws: o.res.Draws, ArtName: o.res.ArtName, Bits: o.res.Bits, ArtHex: o.art}
	if printable(o.art) {
		r.Artefact = string(o.art)
	}
	b, _ := json.MarshalIndent(r, "", " ")
	h := fnv.New32a()
	h.Write([]byte(o.res.Bits))
	h.Write(o.art)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", o.sub.Prop, o.sub.Name, h.Sum32()))
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
	}
	return p
}

func printable(b []byte) bool {
	for _, c := range b {
		if c < 9 || (c > 13 && c < 32) {
			return false
		}
	}
	return len(b) > 0
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range subs {
		if s.Prop == r.Property && s.Name == r.Sub {
			ff := ""
			if r.Bits != "" {
				f, err := os.CreateTemp("", "verif-replay-")
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					return 2
				}
				defer os.Remove(f.Name())
				f.WriteString(r.Bits)
				f.Close()
				ff = f.Name()
			}
			checks := r.Checks
			if ff != "" {
				checks = 1
			}
			o := runSub(s, r.Race, r.Seed, checks, ff)
			switch o.kind {
			case "violation":
				fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", r.Property, path, firstLines(o.detail, 60))
				return 1
			case "ok":
				fmt.Println("replay: the property holds on this case")
				return 0
			}
			fmt.Fprintln(os.Stderr, o.detail)
			return 2
		}
	}
	fmt.Fprintln(os.Stderr, "unknown sub-check", r.Sub)
	return 2
}

func runKnown(k *Known) (hit bool, what string) {
	defer func() {
		if r := recover(); r != nil {
			hit, what = true, k.What
		}
	}()
	return k.Repro()
}

var cntRe = regexp.MustCompile(`\s+`)

func writeEvidence(prop, tier string, seed uint64, outs []*outcome, violations int, wall float64) {
	evals, distinct := 0, 0
	var rules []string
	var samples []string
	per := map[string]any{}
	for _, o := range outs {
		evals += o.res.Evals
		distinct += o.res.Distinct
		rules = append(rules, o.sub.Name+": "+cntRe.ReplaceAllString(o.sub.Rule, " "))
		for _, s := range o.res.Samples {
			if len(samples) < 12 {
				samples = append(samples, "["+o.sub.Name+"] "+s)
			}
		}
		keys := make([]string, 0, len(o.res.Labels))
		for k := range o.res.Labels {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		per[o.sub.Name] = map[string]any{"evaluations": o.res.Evals, "distinct_nontrivial": o.res.Distinct,
			"labels": o.res.Labels, "seed": o.seed, "wall_s": o.wall, "race_detector": o.race, "outcome": o.kind}
	}
	if len(samples) == 0 {
		samples = append(samples, "(no sample recorded)")
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed & (1<<62 - 1)), "level": "exploration",
		"coverage": map[string]any{"evaluations": evals, "distinct_nontrivial": distinct,
			"rule": strings.Join(rules, " | "), "samples": samples, "sub_checks": per},
		"assumptions": []string{"Go toolchain, rapid, go-cmp, and the standard library readers used as oracles are trusted"},
		"wall_s":      wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*fVerif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

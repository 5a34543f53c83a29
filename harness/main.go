package main

import (
	"cmp"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	exitViolation = 10
	exitHarness   = 20
	exitHang      = 97
	hangCPU       = 60.0  // CPU seconds inside one case
	hangWall      = 400.0 // wall seconds inside one case: no answer
)

type replayFile struct {
	Property string          `json:"property"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

type workerResult struct {
	Cases      int               `json:"cases"`
	Evals      int               `json:"evals"`
	NonTrivial []string          `json:"nontrivial"`
	Labels     map[string]int    `json:"labels"`
	Samples    []json.RawMessage `json:"samples"`
	Fail       *replayFile       `json:"fail"`
	Harness    string            `json:"harness"`
}

var (
	scratchDir   string // of this process; everything the code under test writes goes below
	caseSeq      atomic.Int64
	curCase      []byte
	curCaseMutex sync.Mutex
)

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// guard sets the limits that turn runaway recursion, allocation or looping into a recognisable death.
func guard(onHang func()) {
	debug.SetMaxStack(128 << 20)
	limit := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &limit)
	debug.SetMemoryLimit(3 << 30)
	go func() {
		last := int64(-1)
		startCPU, startWall := 0.0, time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			seq := caseSeq.Load()
			if seq != last {
				last, startCPU, startWall = seq, cpuSeconds(), time.Now()
				continue
			}
			if cpuSeconds()-startCPU > hangCPU {
				onHang()
				os.Exit(exitHang)
			}
			if time.Since(startWall).Seconds() > hangWall {
				onHang()
				os.Exit(exitHarness)
			}
		}
	}()
}

type fakeTB struct {
	failed bool
	logs   []string
}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return "verif" }
func (f *fakeTB) Logf(format string, args ...any) {
	f.logs = append(f.logs, fmt.Sprintf(format, args...))
}
func (f *fakeTB) Log(args ...any) { f.logs = append(f.logs, fmt.Sprint(args...)) }
func (f *fakeTB) Skipf(format string, args ...any) {
	panic("skip")
}
func (f *fakeTB) Skip(args ...any)                  { panic("skip") }
func (f *fakeTB) SkipNow()                          { panic("skip") }
func (f *fakeTB) Errorf(format string, args ...any) { f.Logf(format, args...); f.failed = true }
func (f *fakeTB) Error(args ...any)                 { f.Log(args...); f.failed = true }
func (f *fakeTB) Fatalf(format string, args ...any) { f.Errorf(format, args...); panic(stopRun{}) }
func (f *fakeTB) Fatal(args ...any)                 { f.Error(args...); panic(stopRun{}) }
func (f *fakeTB) FailNow()                          { f.failed = true; panic(stopRun{}) }
func (f *fakeTB) Fail()                             { f.failed = true }
func (f *fakeTB) Failed() bool                      { return f.failed }

type stopRun struct{}

func worker(p *Prop, cases int, seed uint64, outDir string) int {
	curFile, err := os.Create(filepath.Join(outDir, "current"))
	if err != nil {
		fmt.Println(err)
		return exitHarness
	}
	res := workerResult{Labels: map[string]int{}}
	seen := map[string]bool{}
	shrinking := false
	var lastHarness error
	write := func() {
		data, _ := json.Marshal(res)
		os.WriteFile(filepath.Join(outDir, "result.json"), data, 0644)
	}
	guard(func() {})
	flag.CommandLine.Set("rapid.checks", strconv.Itoa(cases))
	flag.CommandLine.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.CommandLine.Set("rapid.nofailfile", "true")
	flag.CommandLine.Set("rapid.shrinktime", cmp.Or(os.Getenv("VERIF_SHRINKTIME"), "20s"))
	tb := &fakeTB{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); ok {
					return
				}
				lastHarness = fmt.Errorf("%v\n%s", r, debug.Stack())
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			data := p.Draw(t)
			curFile.Truncate(0)
			curFile.WriteAt(data, 0)
			caseSeq.Add(1)
			rec := Rec{Evals: 1}
			err := runCase(p, data, &rec)
			caseSeq.Add(1)
			if he, ok := err.(*harnessError); ok {
				lastHarness = he
				t.Fatalf("%v", he)
			}
			if !shrinking {
				res.Cases++
				res.Evals += rec.Evals
				for k, v := range rec.Labels {
					res.Labels[k] += v
				}
				if rec.NonTrivial {
					key := shortHash(data)
					if !seen[key] {
						seen[key] = true
						if len(res.Samples) < 3 && len(data) < 2500 {
							res.Samples = append(res.Samples, json.RawMessage(append([]byte{}, data...)))
						}
					}
				}
			}
			if err != nil {
				shrinking = true
				res.Fail = &replayFile{Property: p.ID, Error: err.Error(), Case: append([]byte{}, data...)}
				t.Fatalf("violated")
			}
		})
	}()
	for k := range seen {
		res.NonTrivial = append(res.NonTrivial, k)
	}
	sort.Strings(res.NonTrivial)
	if lastHarness != nil && res.Fail == nil {
		res.Harness = lastHarness.Error()
		write()
		return exitHarness
	}
	if tb.failed && res.Fail == nil {
		res.Harness = "rapid: " + strings.Join(tb.logs, "\n")
		write()
		return exitHarness
	}
	write()
	if res.Fail != nil {
		return exitViolation
	}
	return 0
}

func replay(path string, quiet bool) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return exitHarness
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		fmt.Println(err)
		return exitHarness
	}
	p, ok := registry[rf.Property]
	if !ok {
		fmt.Println("unknown property", rf.Property)
		return exitHarness
	}
	guard(func() { fmt.Println("the case did not end within its CPU budget") })
	rec := Rec{Evals: 1}
	err = runCase(p, rf.Case, &rec)
	if he, ok := err.(*harnessError); ok {
		fmt.Println(he)
		return exitHarness
	}
	if err != nil {
		fmt.Printf("property %s violated by %s:\n%v\n", rf.Property, path, err)
		return exitViolation
	}
	if !quiet {
		fmt.Printf("property %s holds on %s (labels %v)\n", rf.Property, path, rec.Labels)
	}
	return 0
}

// runSelf runs this binary again in its own scratch directory.
func runSelf(verifDir string, args ...string) (int, string) {
	self, err := os.Executable()
	if err != nil {
		return exitHarness, err.Error()
	}
	scratch, err := os.MkdirTemp(scratchDir, "w")
	if err != nil {
		return exitHarness, err.Error()
	}
	defer os.RemoveAll(scratch)
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch, "GOTRACEBACK=single", "GOMAXPROCS=2")
	cmd.Dir = scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var sb limitedBuffer
	cmd.Stdout, cmd.Stderr = &sb, &sb
	err = cmd.Run()
	if err == nil {
		return 0, sb.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), sb.String()
	}
	return exitHarness, err.Error()
}

type limitedBuffer struct {
	mu  sync.Mutex
	buf []byte
}

func (l *limitedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.buf) < 6000 {
		l.buf = append(l.buf, p...)
		if len(l.buf) > 6000 {
			l.buf = l.buf[:6000]
		}
	}
	return len(p), nil
}
func (l *limitedBuffer) String() string { return string(l.buf) }

func saveReplay(verifDir string, rf *replayFile) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0755)
	data, _ := json.MarshalIndent(rf, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", rf.Property, shortHash(rf.Case)))
	os.WriteFile(path, append(data, '\n'), 0644)
	return path
}

// confirm replays a case in a fresh process: 1 = it violates, 0 = it holds, -1 = no answer.
func confirm(verifDir string, rf *replayFile, path string) (int, string) {
	code, out := runSelf(verifDir, "replay", "-verif", verifDir, path)
	switch code {
	case 0:
		return 0, out
	case exitViolation:
		return 1, out
	case exitHarness:
		return -1, out
	case exitHang:
		return 1, "the case does not end (CPU budget exhausted)\n" + out
	case -1: // killed by a signal: the memory guard or the system
		return -1, out
	}
	return 1, "the process died:\n" + out // Go fatal error (stack overflow, out of memory, concurrent map write...)
}

func run(p *Prop, tier string, seed int, verifDir string, workers int, scale float64) int {
	start := time.Now()
	cases := p.Quick
	if tier == "thorough" {
		cases = p.Thorough
	}
	cases = int(float64(cases) * scale)
	if cases < workers {
		cases = workers
	}
	type violation struct {
		rf   *replayFile
		path string
		msg  string
	}
	violations := []violation{}
	harnessErrs := []string{}
	known := loadKnown(verifDir)

	// 1. the committed regression cases
	regress, _ := filepath.Glob(filepath.Join(verifDir, "regress", p.ID, "*.json"))
	sort.Strings(regress)
	regressRun := 0
	for _, path := range regress {
		data, err := os.ReadFile(path)
		var rf replayFile
		if err == nil {
			err = json.Unmarshal(data, &rf)
		}
		if err != nil {
			harnessErrs = append(harnessErrs, err.Error())
			continue
		}
		regressRun++
		ans, out := confirm(verifDir, &rf, path)
		if ans == 1 {
			if k := known.match(p.ID, &rf); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
				continue
			}
			violations = append(violations, violation{&rf, path, out})
		}
		if ans == -1 {
			harnessErrs = append(harnessErrs, path+": "+out)
		}
	}

	// 2. generated cases, in shards
	results := make([]workerResult, workers)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			outDir, err := os.MkdirTemp(scratchDir, "out")
			if err != nil {
				mu.Lock()
				harnessErrs = append(harnessErrs, err.Error())
				mu.Unlock()
				return
			}
			n := cases / workers
			if w < cases%workers {
				n++
			}
			h := fnv.New64a()
			fmt.Fprintf(h, "%d/%s/%s/%d", seed, p.ID, tier, w)
			s := h.Sum64()
			if s == 0 {
				s = 1
			}
			code, out := runSelf(verifDir, "worker", "-verif", verifDir, "-prop", p.ID, "-cases", strconv.Itoa(n), "-wseed", strconv.FormatUint(s, 10), "-out", outDir)
			data, rerr := os.ReadFile(filepath.Join(outDir, "result.json"))
			if rerr == nil {
				json.Unmarshal(data, &results[w])
			}
			mu.Lock()
			defer mu.Unlock()
			switch {
			case code == 0 && rerr == nil:
			case code == exitViolation && results[w].Fail != nil:
				path := saveReplay(verifDir, results[w].Fail)
				violations = append(violations, violation{results[w].Fail, path, results[w].Fail.Error})
			case code == exitHarness || code == -1:
				harnessErrs = append(harnessErrs, fmt.Sprintf("worker %d: exit %d: %s %s", w, code, results[w].Harness, out))
			default:
				// the process died in a case: confirm with that case alone
				cur, cerr := os.ReadFile(filepath.Join(outDir, "current"))
				if cerr != nil || !json.Valid(cur) {
					harnessErrs = append(harnessErrs, fmt.Sprintf("worker %d: exit %d: %s", w, code, out))
					return
				}
				rf := &replayFile{Property: p.ID, Error: firstLines(out, 12), Case: cur}
				path := saveReplay(verifDir, rf)
				ans, cout := confirm(verifDir, rf, path)
				if ans == 1 {
					violations = append(violations, violation{rf, path, cout})
				} else {
					harnessErrs = append(harnessErrs, fmt.Sprintf("worker %d died (exit %d) but its last case does not reproduce it: %s", w, code, out))
				}
			}
		}()
	}
	wg.Wait()

	// 3. evidence
	labels := map[string]int{}
	distinct := map[string]bool{}
	total, evals := 0, 0
	samples := []json.RawMessage{}
	for _, r := range results {
		total += r.Cases
		evals += r.Evals
		for k, v := range r.Labels {
			labels[k] += v
		}
		for _, k := range r.NonTrivial {
			distinct[k] = true
		}
		if len(samples) < 4 && len(r.Samples) > 0 {
			samples = append(samples, r.Samples[0])
		}
	}
	unlisted := 0
	for _, v := range violations {
		if known.match(p.ID, v.rf) == "" {
			unlisted++
		}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"wall_s": time.Since(start).Seconds(), "violations": unlisted,
		"assumptions": p.Assume,
		"coverage": map[string]any{
			"evaluations": evals, "cases_generated": total, "distinct_nontrivial": len(distinct),
			"rule": p.Rule, "samples": samples, "labels": labels,
			"regression_cases_replayed": regressRun, "shards": workers,
		},
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	if evals == total {
		delete(ev["coverage"].(map[string]any), "cases_generated")
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), append(data, '\n'), 0644); err != nil {
		harnessErrs = append(harnessErrs, err.Error())
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d executions, %d distinct non-trivial, %d regression cases, %.1fs\n", p.ID, tier, seed, total, evals, len(distinct), regressRun, time.Since(start).Seconds())
	for _, k := range sortedKeys(labels) {
		fmt.Printf("  %-50s %d\n", k, labels[k])
	}
	printed := map[string]bool{}
	for _, v := range violations {
		if printed[v.path] {
			continue
		}
		printed[v.path] = true
		if k := known.match(p.ID, v.rf); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
			continue
		}
		fmt.Printf("---- %s\n%s\n", v.path, firstLines(v.msg, 30))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, v.path)
	}
	if unlisted > 0 {
		return 1
	}
	if len(harnessErrs) > 0 {
		fmt.Println("HARNESS ERROR:", strings.Join(harnessErrs, "\n"))
		return 2
	}
	if len(distinct) == 0 {
		fmt.Println("HARNESS ERROR: no non-trivial case was generated")
		return 2
	}
	return 0
}

func firstLines(s string, n int) string {
	lines := strings.SplitN(s, "\n", n+1)
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n")
}

// knownFindings are identified by the exact failing case.
type knownFinding struct {
	Property string          `json:"property"`
	Finding  string          `json:"finding"`
	Case     json.RawMessage `json:"case"`
}

type knownList []knownFinding

func loadKnown(verifDir string) knownList {
	data, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var doc struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(data, &doc); err != nil {
		fmt.Println("known_findings.json:", err)
		os.Exit(2)
	}
	return doc.Findings
}

func (k knownList) match(id string, rf *replayFile) string {
	for _, one := range k {
		if one.Property == id && jsonEqual(one.Case, rf.Case) {
			return one.Finding
		}
	}
	return ""
}

func jsonEqual(a, b json.RawMessage) bool {
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	p, _ := json.Marshal(x)
	q, _ := json.Marshal(y)
	return string(p) == string(q)
}

// scratchBase is where the files of the code under test go: in memory if possible, where flushing them costs nothing.
func scratchBase() string {
	var fs syscall.Statfs_t
	if err := syscall.Statfs("/dev/shm", &fs); err == nil && uint64(fs.Bsize)*fs.Bavail > 1<<30 {
		if d, err := os.MkdirTemp("/dev/shm", "rodkina-verif"); err == nil {
			os.Remove(d)
			return "/dev/shm"
		}
	}
	return ""
}

func main() {
	testing.Init()
	if len(os.Args) < 2 {
		fmt.Println("usage: harness run|worker|replay|list")
		os.Exit(2)
	}
	mode := os.Args[1]
	if special(mode, os.Args[2:]) {
		return
	}
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int("vseed", 1, "")
	wseed := flag.Uint64("wseed", 1, "")
	cases := flag.Int("cases", 100, "")
	out := flag.String("out", "", "")
	verifDir := flag.String("verif", "/verif", "")
	workers := flag.Int("workers", 8, "")
	scale := flag.Float64("scale", 1, "")
	flag.CommandLine.Parse(os.Args[2:])
	scratchDir = os.Getenv("VERIF_SCRATCH")
	own := false
	if scratchDir == "" {
		d, err := os.MkdirTemp(scratchBase(), "rodkina-verif")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		scratchDir, own = d, true
	}
	if own && strings.HasPrefix(*prop, "D") && !strings.HasPrefix(scratchDir, "/dev/shm/") {
		*scale /= 8 // flushing takes time on a disk
	}
	finish := func(code int) {
		if own {
			os.RemoveAll(scratchDir)
		}
		os.Exit(code)
	}
	switch mode {
	case "list":
		for _, id := range sortedKeys(registry) {
			fmt.Println(id)
		}
		finish(0)
	case "replay":
		if flag.NArg() != 1 {
			fmt.Println("usage: harness replay FILE")
			finish(2)
		}
		finish(replay(flag.Arg(0), false))
	}
	p, ok := registry[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		finish(2)
	}
	switch mode {
	case "worker":
		debug.SetGCPercent(600)
		debug.SetMemoryLimit(2 << 30)
		if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
			w := must(os.Create(f))
			must(0, pprof.StartCPUProfile(w))
			defer pprof.StopCPUProfile()
			code := worker(p, *cases, *wseed, *out)
			pprof.StopCPUProfile()
			finish(code)
		}
		finish(worker(p, *cases, *wseed, *out))
	case "run":
		finish(run(p, *tier, *seed, *verifDir, *workers, *scale))
	}
	fmt.Println("unknown mode", mode)
	finish(2)
}

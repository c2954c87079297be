// Package main is the verification harness: one binary holding every check.
//
//	vh check  -prop C01            parent: shards the search, writes evidence, prints the verdict
//	vh worker -prop C01 ...        one search process (rapid)
//	vh replay FILE                 runs one saved case without rapid
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- violations

// Violation is the error a case execution returns when the property is broken.
type Violation struct {
	Class string // short stable name of what is broken, used while shrinking
	Msg   string
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

func violate(class, format string, a ...any) error {
	return &Violation{Class: class, Msg: fmt.Sprintf(format, a...)}
}

// HarnessError is a failure of the harness itself (never a violation).
type HarnessError struct{ Err error }

func (h *HarnessError) Error() string { return "harness: " + h.Err.Error() }

func harnessFail(err error) { panic(&HarnessError{err}) }

// ---------------------------------------------------------------- run context

// Run is what a case execution gets: a scratch directory and counters.
type Run struct {
	Dir        string // fresh, empty, removed after the case
	Tier       string
	Replaying  bool
	Shrinking  bool
	labels     map[string]int64
	nontrivial bool
	cov        map[string]int64
	mu         sync.Mutex
}

// Label counts a class of case (at most once per case and label).
func (r *Run) Label(s string) {
	r.mu.Lock()
	r.labels[s] = 1
	r.mu.Unlock()
}

// Count adds to a measured counter of the run.
func (r *Run) Count(s string, n int64) {
	r.mu.Lock()
	r.cov[s] += n
	r.mu.Unlock()
}

// NonTrivial marks this case as non-trivial by the check's rule.
func (r *Run) NonTrivial() { r.nontrivial = true }

// ---------------------------------------------------------------- checks

// Check is one property's check.
type Check interface {
	ID() string
	Rule() string
	Level() string
	Assumptions() []string
	// draw generates a case
	draw(t *rapid.T, tier string) any
	decode(raw []byte) (any, error)
	exec(r *Run, c any) error
	budget(tier string) Budget
	concurrent() bool
}

// Budget bounds one tier of one check.
type Budget struct {
	Cases   int           // per worker
	Seconds int           // soft limit on the search, per worker
	Workers int           // processes
	CaseCPU time.Duration // CPU time after which a case counts as non-terminating
}

// PBT is a property-based check over cases of type C.
type PBT[C any] struct {
	Id       string
	RuleText string
	LevelS   string
	Assume   []string
	Gen      func(t *rapid.T, tier string) C
	Exec     func(r *Run, c C) error
	Quick    Budget
	Thorough Budget
	// Concurrent checks run several goroutines: a crash need not happen again to be believed.
	Concurrent bool
}

func (p *PBT[C]) ID() string            { return p.Id }
func (p *PBT[C]) concurrent() bool      { return p.Concurrent }
func (p *PBT[C]) Rule() string          { return p.RuleText }
func (p *PBT[C]) Assumptions() []string { return p.Assume }
func (p *PBT[C]) Level() string {
	if p.LevelS == "" {
		return "exploration"
	}
	return p.LevelS
}
func (p *PBT[C]) draw(t *rapid.T, tier string) any { return p.Gen(t, tier) }
func (p *PBT[C]) decode(raw []byte) (any, error) {
	var c C
	err := json.Unmarshal(raw, &c)
	return c, err
}
func (p *PBT[C]) exec(r *Run, c any) error { return p.Exec(r, c.(C)) }
func (p *PBT[C]) budget(tier string) Budget {
	b := p.Quick
	if tier == "thorough" {
		b = p.Thorough
		if b.Cases == 0 {
			b = p.Quick
			b.Cases *= 25
			b.Seconds = 600
		}
	}
	if b.Workers == 0 {
		b.Workers = 8
	}
	if b.Seconds == 0 {
		b.Seconds = 60
	}
	if b.CaseCPU == 0 {
		b.CaseCPU = 40 * time.Second
	}
	return b
}

var checks = map[string]Check{}

func register(c Check) { checks[c.ID()] = c }

// ---------------------------------------------------------------- executing one case

var caseSeq int64

// runCase executes one case in a fresh scratch directory. The error is nil, a
// *Violation or a *HarnessError.
func runCase(ck Check, c any, base, tier string, replaying, shrinking bool) (r *Run, err error) {
	dir := filepath.Join(base, fmt.Sprintf("case%d", atomic.AddInt64(&caseSeq, 1)))
	if e := os.MkdirAll(dir, 0755); e != nil {
		return nil, &HarnessError{e}
	}
	defer func() {
		if err != nil {
			// what a failing case left open keeps its files: at least their contents must go (scratch is in memory)
			filepath.Walk(dir, func(p string, fi os.FileInfo, e error) error {
				if e == nil && fi.Mode().IsRegular() && fi.Size() > 1<<20 {
					os.Truncate(p, 0)
				}
				return nil
			})
		}
		os.RemoveAll(dir)
	}()
	r = &Run{Dir: dir, Tier: tier, labels: map[string]int64{}, cov: map[string]int64{}, Replaying: replaying, Shrinking: shrinking}
	err = protect(func() error { return ck.exec(r, c) })
	resetHooks()
	return r, err
}

// protect turns a panic of the code under test into a violation.
func protect(f func() error) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if he, ok := x.(*HarnessError); ok {
				err = he
				return
			}
			if v, ok := x.(*Violation); ok {
				err = v
				return
			}
			st := string(debug.Stack())
			err = &Violation{Class: "panic", Msg: fmt.Sprintf("%v\n%s", x, trimStack(st))}
		}
	}()
	return f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "cannyls-go") || strings.Contains(l, "verif/harness") || strings.Contains(l, "main.") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------- worker

// WorkerOut is what a worker reports.
type WorkerOut struct {
	Evaluations int64
	Hashes      []uint64 // of distinct non-trivial cases
	Labels      map[string]int64
	Cov         map[string]int64
	Samples     []json.RawMessage
	Violation   *Violation
	Case        json.RawMessage
	HarnessErr  string
	Exhausted   bool // the time budget ran out before the case budget
}

type fakeTB struct {
	failed bool
	log    []string
}

type tbStop struct{}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return "check" }
func (f *fakeTB) Logf(s string, a ...any)   { f.log = append(f.log, fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)              { f.log = append(f.log, fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(s string, a ...any)  { panic(tbStop{}) }
func (f *fakeTB) Skip(a ...any)             { panic(tbStop{}) }
func (f *fakeTB) SkipNow()                  { panic(tbStop{}) }
func (f *fakeTB) Errorf(s string, a ...any) { f.Logf(s, a...); f.failed = true }
func (f *fakeTB) Error(a ...any)            { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); panic(tbStop{}) }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); panic(tbStop{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// runTB is the rapid.TB type without naming it
func rapidCheck(tb *fakeTB, prop func(*rapid.T)) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(tbStop); !ok {
				panic(x)
			}
		}
	}()
	rapid.Check(tb, prop)
}

func hashOf(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b+0x632BE59BD9B4E019)*0xD6E8FEB86659FD93
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	if x == 0 {
		x = 1
	}
	return x
}

type workerCfg struct {
	prop, tier, base, out string
	seed                  uint64
	index                 int
	bud                   Budget
	shrink                time.Duration
}

var currentCase struct {
	sync.Mutex
	raw   []byte
	start time.Duration
	id    int64
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func setCurrent(raw []byte) {
	currentCase.Lock()
	currentCase.raw = raw
	currentCase.start = cpuTime()
	currentCase.id++
	currentCase.Unlock()
}

// watchdog notices cases that never end. It only calls something a violation if
// it can tell: either the case burnt far more CPU time than any legitimate
// case, or every goroutine that is inside the code under test is parked on a lock.
func watchdog(limit time.Duration, report func(v *Violation, raw []byte)) {
	var lastID int64 = -1
	var lastCPU time.Duration
	idle := 0
	for {
		time.Sleep(500 * time.Millisecond)
		currentCase.Lock()
		raw, start, id := currentCase.raw, currentCase.start, currentCase.id
		currentCase.Unlock()
		if raw == nil {
			lastID = -1
			continue
		}
		now := cpuTime()
		if id != lastID {
			lastID, lastCPU, idle = id, now, 0
			continue
		}
		if now-start > limit {
			report(&Violation{Class: "nontermination", Msg: fmt.Sprintf("case still running after %v of CPU time\n%s", now-start, stacksInCode())}, raw)
			return
		}
		if now-lastCPU < 20*time.Millisecond {
			idle++
		} else {
			idle = 0
		}
		lastCPU = now
		if idle >= 6 { // 3 s without progress: look at the goroutines
			if dl, stacks := deadlocked(); dl {
				report(&Violation{Class: "deadlock", Msg: "all goroutines inside the store are parked on locks\n" + stacks}, raw)
				return
			}
			idle = 3
		}
	}
}

func allStacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func stacksInCode() string {
	var out []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "cannyls-go") && !strings.Contains(g, "updateUsageInfo") {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// deadlocked reports whether some goroutine is inside the code under test and all those are
// waiting for a lock (twice in a row, with identical stacks).
func deadlocked() (bool, string) {
	look := func() (bool, string) {
		n := 0
		var out []string
		for _, g := range strings.Split(allStacks(), "\n\n") {
			if !strings.Contains(g, "cannyls-go") {
				continue
			}
			if strings.Contains(g, "storage.updateUsageInfo") || strings.Contains(g, "go.opencensus.io/stats/view.(*worker)") {
				continue
			}
			head := g
			if i := strings.IndexByte(g, '\n'); i >= 0 {
				head = g[:i]
			}
			ok := false
			for _, st := range []string{"[sync.Mutex.Lock", "[sync.RWMutex.Lock", "[sync.RWMutex.RLock", "[semacquire", "[sync.WaitGroup.Wait"} {
				if strings.Contains(head, st) {
					ok = true
				}
			}
			if !ok {
				return false, ""
			}
			n++
			// drop the changing "N minutes" part
			if i := strings.IndexByte(g, '\n'); i >= 0 {
				g = g[i:]
			}
			out = append(out, g)
		}
		sort.Strings(out)
		return n > 0, strings.Join(out, "\n\n")
	}
	a, s1 := look()
	if !a {
		return false, ""
	}
	time.Sleep(700 * time.Millisecond)
	b, s2 := look()
	return b && s1 == s2, s1
}

func worker(cfg workerCfg) *WorkerOut {
	ck := checks[cfg.prop]
	if f := os.Getenv("VERIF_PPROF"); f != "" && cfg.index == 0 { // for tuning the harness only
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	out := &WorkerOut{Labels: map[string]int64{}, Cov: map[string]int64{}}
	debug.SetMaxStack(64 << 20)
	testing.Init()
	flag.CommandLine.Parse([]string{})
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", cfg.shrink.String())

	seen := map[uint64]bool{}
	deadline := time.Now().Add(time.Duration(cfg.bud.Seconds) * time.Second)

	var omu sync.Mutex
	finish := func() {
		for h := range seen {
			out.Hashes = append(out.Hashes, h)
		}
		sort.Slice(out.Hashes, func(i, j int) bool { return out.Hashes[i] < out.Hashes[j] })
	}
	go watchdog(cfg.bud.CaseCPU, func(v *Violation, raw []byte) {
		omu.Lock()
		if out.Violation == nil || true {
			out.Violation = v
			out.Case = raw
		}
		finish()
		writeOut(cfg.out, out)
		os.Exit(0)
	})

	account := func(r *Run, raw []byte) {
		if r == nil {
			return
		}
		out.Evaluations++
		for k := range r.labels {
			out.Labels[k]++
		}
		for k, v := range r.cov {
			out.Cov[k] += v
		}
		if r.nontrivial {
			h := hashOf(raw)
			if !seen[h] {
				seen[h] = true
				if len(out.Samples) < 2 && len(raw) < 3000 || len(out.Samples) == 0 {
					out.Samples = append(out.Samples, append(json.RawMessage(nil), raw...))
				}
			}
		}
	}

	failing := false
	var slowest time.Duration
	var class string
	var bestCase []byte
	var best *Violation
	stop := false
	prop := func(t *rapid.T) {
		c := ck.draw(t, cfg.tier)
		if stop {
			return
		}
		raw, err := json.Marshal(c)
		if err != nil {
			stop = true
			out.HarnessErr = "marshal: " + err.Error()
			return
		}
		if !failing && time.Now().After(deadline) {
			return
		}
		if curFile != nil {
			curFile.Truncate(0)
			curFile.WriteAt(raw, 0)
		}
		setCurrent(raw)
		cpu0 := cpuTime()
		r, e := runCase(ck, c, cfg.base, cfg.tier, false, failing)
		setCurrent(nil)
		if d := cpuTime() - cpu0; d > slowest {
			slowest = d
			if f := os.Getenv("VERIF_SLOW"); f != "" && d > 2*time.Second { // for tuning the harness only
				os.WriteFile(fmt.Sprintf("%s.%d.%s", f, cfg.index, d.Round(time.Millisecond)), raw, 0644)
			}
		}
		if !failing {
			omu.Lock()
			account(r, raw)
			omu.Unlock()
		}
		if e != nil {
			var v *Violation
			if errors.As(e, &v) {
				if failing && v.Class != class {
					return // another defect than the one being shrunk
				}
				failing, class = true, v.Class
				best, bestCase = v, append([]byte(nil), raw...)
				t.Fatalf("%s", v.Class)
			}
			stop = true
			out.HarnessErr = e.Error()
		}
		if !failing && ck.concurrent() {
			if v := raceLog(); v != nil { // the detector reports a race once per process: keep the case as it is
				stop = true
				best, bestCase = v, append([]byte(nil), raw...)
			}
		}
	}

	batch := 0
	for int(out.Evaluations) < cfg.bud.Cases && !stop && !failing {
		if time.Now().After(deadline) {
			out.Exhausted = true
			break
		}
		n := cfg.bud.Cases - int(out.Evaluations)
		if n > 50 {
			n = 50
		}
		flag.Set("rapid.checks", fmt.Sprint(n))
		flag.Set("rapid.seed", fmt.Sprint(mix(cfg.seed, uint64(cfg.index)<<32|uint64(batch))))
		before := out.Evaluations
		tb := &fakeTB{}
		rapidCheck(tb, prop)
		batch++
		if tb.failed && !failing && !stop {
			out.HarnessErr = "generator failed: " + strings.Join(tb.log, "; ")
			break
		}
		if out.Evaluations == before && !failing && !stop && time.Now().Before(deadline) {
			out.HarnessErr = "generator produced no valid case"
			break
		}
	}
	omu.Lock()
	if best != nil {
		out.Violation = best
		out.Case = bestCase
	}
	finish()
	return out
}

var curFile *os.File

func writeOut(path string, out *WorkerOut) {
	b, err := json.Marshal(out)
	if err != nil {
		b, _ = json.Marshal(&WorkerOut{HarnessErr: "marshal result: " + err.Error()})
	}
	os.WriteFile(path+".tmp", b, 0644)
	os.Rename(path+".tmp", path)
}

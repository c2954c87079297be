package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Replay is the format of saved cases.
type Replay struct {
	Property string          `json:"property"`
	Class    string          `json:"class"`
	Message  string          `json:"message"`
	Note     string          `json:"note,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func silenceStdout() *os.File {
	// the library prints to standard output; keep a private handle to the real one
	fd, err := syscall.Dup(1)
	if err != nil {
		return os.Stdout
	}
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		syscall.Dup2(int(null.Fd()), 1)
		null.Close()
	}
	syscall.CloseOnExec(fd)
	return os.NewFile(uintptr(fd), "stdout")
}

func scratchBase() (string, error) {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return os.MkdirTemp(d, "vh-")
	}
	var st syscall.Statfs_t
	if err := syscall.Statfs("/dev/shm", &st); err == nil && uint64(st.Bavail)*uint64(st.Bsize) > 2<<30 {
		if d, err := os.MkdirTemp("/dev/shm", "vh-"); err == nil {
			return d, nil
		}
	}
	return os.MkdirTemp("", "vh-")
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check|worker|replay|list ...")
		os.Exit(2)
	}
	if a := strings.Join(os.Args, " "); os.Getenv("GLIBC_TUNABLES") == "" && (os.Args[1] == "replay" || os.Args[1] == "worker" && strings.Contains(a, "-prop C23 ")) {
		if exe, err := os.Executable(); err == nil {
			syscall.Exec(exe, os.Args, append(os.Environ(), nativeTunables))
		}
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "worker":
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		var cfg workerCfg
		fs.StringVar(&cfg.prop, "prop", "", "")
		fs.StringVar(&cfg.tier, "tier", "quick", "")
		fs.StringVar(&cfg.base, "base", "", "")
		fs.StringVar(&cfg.out, "out", "", "")
		fs.Uint64Var(&cfg.seed, "seed", 1, "")
		fs.IntVar(&cfg.index, "index", 0, "")
		fs.IntVar(&cfg.bud.Cases, "cases", 0, "")
		fs.IntVar(&cfg.bud.Seconds, "seconds", 60, "")
		fs.DurationVar(&cfg.bud.CaseCPU, "casecpu", 40*time.Second, "")
		fs.DurationVar(&cfg.shrink, "shrink", 25*time.Second, "")
		fs.Parse(os.Args[2:])
		silenceStdout()
		os.Args = os.Args[:1]
		var err error
		if curFile, err = os.Create(cfg.out + ".case"); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		writeOut(cfg.out, worker(cfg))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// replayMain runs saved cases directly, without rapid.
var quietReplay bool

func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	prop := fs.String("prop", "", "override the property")
	n := fs.Int("n", 1, "repetitions")
	quiet := fs.Bool("q", false, "quiet")
	cpu := fs.Duration("casecpu", 40*time.Second, "")
	fs.Parse(args)
	quietReplay = *quiet
	stdout := silenceStdout()
	code := 0
	base, err := scratchBase()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(base)
	for _, f := range fs.Args() {
		raw, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var rp Replay
		if err := json.Unmarshal(raw, &rp); err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			return 2
		}
		id := rp.Property
		if *prop != "" {
			id = *prop
		}
		ck := checks[id]
		if ck == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			return 2
		}
		c, err := ck.decode(rp.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			return 2
		}
		go watchdog(*cpu, func(v *Violation, raw []byte) {
			fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n%s\n", id, f, v.Error())
			os.RemoveAll(base)
			os.Exit(1)
		})
		for i := 0; i < *n; i++ {
			setCurrent(rp.Case)
			_, e := runCase(ck, c, base, "quick", true, false)
			setCurrent(nil)
			if e != nil {
				var v *Violation
				if errors.As(e, &v) {
					fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n%s\n", id, f, v.Error())
					code = 1
					break
				}
				fmt.Fprintln(os.Stderr, f, e)
				return 2
			}
		}
		if !*quiet && code == 0 {
			fmt.Fprintf(stdout, "held: %s %s\n", id, f)
		}
	}
	return code
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type workerResult struct {
	out    *WorkerOut
	died   string // stderr of a worker that died
	status string
	raw    []byte // the case it died in
}

func runWorker(exe string, cfg workerCfg, timeout time.Duration, env []string) workerResult {
	cmd := exec.Command(exe, "worker", "-prop", cfg.prop, "-tier", cfg.tier, "-base", cfg.base, "-out", cfg.out,
		"-seed", fmt.Sprint(cfg.seed), "-index", fmt.Sprint(cfg.index), "-cases", fmt.Sprint(cfg.bud.Cases),
		"-seconds", fmt.Sprint(cfg.bud.Seconds), "-casecpu", cfg.bud.CaseCPU.String(), "-shrink", cfg.shrink.String())
	cmd.Env = append(append([]string(nil), env...), "GORACE=halt_on_error=0 history_size=3 log_path="+filepath.Join(cfg.base, "race"), "VERIF_RACELOG="+filepath.Join(cfg.base, "race"))
	cmd.Dir = cfg.base
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd, err := startChild(cmd, cfg.prop)
	if err != nil {
		return workerResult{status: err.Error()}
	}
	addChild(cmd.Process.Pid)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		err = errors.New("worker exceeded its wall clock limit")
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // leftovers of the group
	var res workerResult
	if b, e := os.ReadFile(cfg.out); e == nil {
		var o WorkerOut
		if json.Unmarshal(b, &o) == nil {
			res.out = &o
		}
	}
	if err != nil && res.out == nil {
		res.status = err.Error()
		res.died = errb.String()
		res.raw, _ = os.ReadFile(cfg.out + ".case")
	}
	if res.out != nil && res.out.Violation == nil {
		if v := raceViolation(errb.String()); v != nil {
			res.out.Violation = v
			res.out.Case, _ = os.ReadFile(cfg.out + ".case")
		}
	}
	return res
}

// startChild starts a process of this harness. The server of C20 listens on a fixed port, so that each of
// its processes gets a network of its own if the system allows it.
func startChild(cmd *exec.Cmd, prop string) (*exec.Cmd, error) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if prop == "C20" {
		own := *cmd
		own.Env = append(append([]string(nil), cmd.Env...), "VERIF_NET=own")
		own.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL, Cloneflags: syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
			UidMappings: []syscall.SysProcIDMap{{HostID: os.Getuid(), Size: 1}}, GidMappings: []syscall.SysProcIDMap{{HostID: os.Getgid(), Size: 1}}}
		if own.Start() == nil {
			return &own, nil
		}
	}
	return cmd, cmd.Start()
}

// raceLog looks at what the race detector has reported to this worker's log.
func raceLog() *Violation {
	p := os.Getenv("VERIF_RACELOG")
	if p == "" {
		return nil
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil {
		return nil
	}
	return raceViolation(string(b))
}

// raceViolation finds a race report of the race detector that involves the code under test.
func raceViolation(stderr string) *Violation {
	for _, blk := range strings.Split(stderr, "==================") {
		if strings.Contains(blk, "WARNING: DATA RACE") && strings.Contains(blk, "cannyls-go") {
			if len(blk) > 5000 {
				blk = blk[:5000]
			}
			return &Violation{Class: "race", Msg: blk}
		}
	}
	return nil
}

// crashViolation recognises a worker killed by a Go runtime failure inside the code under test.
func crashViolation(stderr string) *Violation {
	i := strings.Index(stderr, "panic: ")
	if j := strings.Index(stderr, "fatal error: "); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		if k := strings.Index(stderr, "runtime: goroutine stack exceeds"); k >= 0 {
			i = k
		}
	}
	if j := strings.Index(stderr, "SIGSEGV"); i < 0 && j >= 0 {
		i = j
	}
	if i < 0 || !strings.Contains(stderr[i:], "cannyls-go") {
		return nil
	}
	if strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate memory") {
		return nil
	}
	m := stderr[i:]
	if len(m) > 4000 {
		m = m[:4000]
	}
	return &Violation{Class: "crash", Msg: m}
}

var children struct {
	sync.Mutex
	pids []int
}

func addChild(pid int) {
	children.Lock()
	children.pids = append(children.pids, pid)
	children.Unlock()
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tierF := fs.String("tier", "", "quick or thorough")
	cases := fs.Int("cases", 0, "override the number of cases per worker")
	secs := fs.Int("seconds", 0, "override the seconds per worker")
	workers := fs.Int("workers", 0, "override the number of workers")
	shrink := fs.Duration("shrink", 25*time.Second, "")
	noEvidence := fs.Bool("noevidence", false, "")
	fs.Parse(args)
	ck := checks[*prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(n)
		} else {
			seed = hashOf([]byte(s))
		}
	}
	start := time.Now()
	base, err := scratchBase()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cleanup := func() { os.RemoveAll(base) }
	defer cleanup()
	sigs := make(chan os.Signal, 1)
	signal.Notify(sigs, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	go func() {
		<-sigs
		children.Lock()
		for _, p := range children.pids {
			syscall.Kill(-p, syscall.SIGKILL)
		}
		cleanup()
		os.Exit(2)
	}()
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bud := ck.budget(tier)
	if *cases > 0 {
		bud.Cases = *cases
	}
	if *secs > 0 {
		bud.Seconds = *secs
	}
	if *workers > 0 {
		bud.Workers = *workers
	}
	env := append(os.Environ(), "VERIF_SCRATCH="+base, "GOMEMLIMIT=1600MiB", "GOGC=500", "GORACE=halt_on_error=0 history_size=3", "GOTRACEBACK=all")

	total := &WorkerOut{Labels: map[string]int64{}, Cov: map[string]int64{}}
	var violations []Replay
	status := 0
	var harnessErrs []string

	// 1. saved regression cases
	regress, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", ck.ID(), "*.json"))
	sort.Strings(regress)
	regressRun := 0
	for i, f := range regress {
		raw, err := os.ReadFile(f)
		var rp Replay
		if err != nil || json.Unmarshal(raw, &rp) != nil {
			harnessErrs = append(harnessErrs, "bad corpus file "+f)
			continue
		}
		regressRun++
		v, herr := runIsolated(exe, ck.ID(), rp.Case, filepath.Join(base, fmt.Sprintf("reg%d", i)), env, bud.CaseCPU)
		if herr != "" {
			harnessErrs = append(harnessErrs, f+": "+herr)
		}
		if v != nil {
			violations = append(violations, Replay{Property: ck.ID(), Class: v.Class, Message: v.Msg, Case: rp.Case, Note: "saved case " + filepath.Base(f)})
		}
	}

	// 2. the search
	if len(violations) == 0 {
		var wg sync.WaitGroup
		results := make([]workerResult, bud.Workers)
		limit := time.Duration(bud.Seconds)*time.Second + *shrink*2 + bud.CaseCPU*4 + 60*time.Second
		for i := 0; i < bud.Workers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				wb := filepath.Join(base, fmt.Sprintf("w%d", i))
				os.MkdirAll(wb, 0755)
				cfg := workerCfg{prop: ck.ID(), tier: tier, base: wb, out: filepath.Join(base, fmt.Sprintf("out%d.json", i)),
					seed: mix(seed, hashOf([]byte(ck.ID()))), index: i, bud: bud, shrink: *shrink}
				results[i] = runWorker(exe, cfg, limit, env)
			}(i)
		}
		wg.Wait()
		seen := map[uint64]bool{}
		for i, r := range results {
			if r.out == nil {
				v := crashViolation(r.died)
				if v != nil && len(r.raw) > 0 && ck.concurrent() {
					violations = append(violations, Replay{Property: ck.ID(), Class: v.Class, Message: v.Msg, Case: r.raw})
					continue
				}
				if v != nil && len(r.raw) > 0 {
					// confirm in a process of its own
					v2, _ := runIsolated(exe, ck.ID(), r.raw, filepath.Join(base, fmt.Sprintf("crash%d", i)), env, bud.CaseCPU)
					if v2 != nil {
						violations = append(violations, Replay{Property: ck.ID(), Class: v2.Class, Message: v2.Msg, Case: r.raw})
						continue
					}
					harnessErrs = append(harnessErrs, fmt.Sprintf("worker %d died, not reproducible: %s", i, v.Msg))
					continue
				}
				d := r.died
				if len(d) > 2000 {
					d = d[:2000]
				}
				harnessErrs = append(harnessErrs, fmt.Sprintf("worker %d: %s\n%s", i, r.status, d))
				continue
			}
			o := r.out
			total.Evaluations += o.Evaluations
			for k, v := range o.Labels {
				total.Labels[k] += v
			}
			for k, v := range o.Cov {
				total.Cov[k] += v
			}
			for _, h := range o.Hashes {
				seen[h] = true
			}
			if len(total.Samples) < 4 && len(o.Samples) > 0 {
				total.Samples = append(total.Samples, o.Samples[0])
			}
			total.Exhausted = total.Exhausted || o.Exhausted
			if o.HarnessErr != "" {
				harnessErrs = append(harnessErrs, fmt.Sprintf("worker %d: %s", i, o.HarnessErr))
			}
			if o.Violation != nil {
				violations = append(violations, Replay{Property: ck.ID(), Class: o.Violation.Class, Message: o.Violation.Msg, Case: o.Case})
			}
		}
		for h := range seen {
			total.Hashes = append(total.Hashes, h)
		}
	}

	// 3. verdict
	sort.SliceStable(violations, func(i, j int) bool { return len(violations[i].Case) < len(violations[j].Case) })
	printed := map[string]bool{}
	for _, v := range violations {
		if printed[v.Class] {
			continue
		}
		printed[v.Class] = true
		dir := filepath.Join(verifDir(), "replays", ck.ID())
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", sanitize(v.Class), hashOf(v.Case)))
		b, _ := json.MarshalIndent(v, "", " ")
		if err := os.WriteFile(path, b, 0644); err != nil {
			harnessErrs = append(harnessErrs, err.Error())
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID(), path)
		msg := v.Message
		if len(msg) > 1500 {
			msg = msg[:1500] + "..."
		}
		fmt.Printf("  %s: %s\n", v.Class, strings.ReplaceAll(msg, "\n", "\n  "))
		status = 1
	}
	if status == 0 && len(harnessErrs) > 0 {
		status = 2
	}
	for _, h := range harnessErrs {
		fmt.Fprintln(os.Stderr, "ERROR:", h)
	}
	wall := time.Since(start).Seconds()
	if !*noEvidence {
		cov := map[string]any{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": len(total.Hashes),
			"rule":                ck.Rule(),
			"samples":             sampleAny(total.Samples),
			"case_classes":        total.Labels,
			"measured":            total.Cov,
			"saved_cases_rerun":   regressRun,
			"workers":             bud.Workers,
			"stopped_by_time":     total.Exhausted,
		}
		ev := map[string]any{
			"property": ck.ID(), "tier": tier, "seed": int64(seed), "level": ck.Level(),
			"coverage": cov, "assumptions": ck.Assumptions(), "wall_s": wall, "violations": len(violations),
		}
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
			err = os.WriteFile(filepath.Join(verifDir(), "evidence", ck.ID()+".json"), b, 0644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR: evidence:", err)
			if status == 0 {
				status = 2
			}
		}
	}
	if status == 0 && total.Evaluations == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: no case was evaluated")
		status = 2
	}
	if status == 0 {
		fmt.Printf("OK property=%s cases=%d nontrivial=%d wall=%.1fs\n", ck.ID(), total.Evaluations, len(total.Hashes), wall)
	}
	return status
}

func sampleAny(s []json.RawMessage) []any {
	out := []any{}
	for _, r := range s {
		if len(r) > 6000 {
			out = append(out, string(r[:6000])+"...(cut)")
			continue
		}
		out = append(out, r)
	}
	return out
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '-'
	}, strings.ToLower(s))
}

// runIsolated replays one case in a process of its own.
func runIsolated(exe, id string, raw []byte, path string, env []string, cpu time.Duration) (*Violation, string) {
	b, _ := json.Marshal(Replay{Property: id, Case: raw})
	f := path + ".json"
	if err := os.WriteFile(f, b, 0644); err != nil {
		return nil, err.Error()
	}
	cmd := exec.Command(exe, "replay", "-q", "-casecpu", cpu.String(), f)
	cmd.Env = env
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd, err := startChild(cmd, id)
	if err != nil {
		return nil, err.Error()
	}
	addChild(cmd.Process.Pid)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(4*cpu + 60*time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return nil, "replay exceeded its wall clock limit"
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if v := raceViolation(se.String()); v != nil {
		return v, ""
	}
	if err == nil {
		return nil, ""
	}
	if strings.Contains(so.String(), "VIOLATION property=") {
		msg := so.String()
		class := "violation"
		if i := strings.IndexByte(msg, '\n'); i >= 0 {
			msg = msg[i+1:]
			if j := strings.Index(msg, ": "); j >= 0 {
				class, msg = msg[:j], msg[j+2:]
			}
		}
		return &Violation{Class: class, Msg: msg}, ""
	}
	if v := crashViolation(se.String()); v != nil {
		return v, ""
	}
	s := se.String()
	if len(s) > 1500 {
		s = s[:1500]
	}
	return nil, "replay failed: " + err.Error() + " " + s
}

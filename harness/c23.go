package main

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
	"pgregory.net/rapid"
)

// C23Case is a history that ends where it began, and is repeated.
//
// Session: the store stays open; the history ends with deleting all objects and the snapshot. Otherwise each repetition
// creates a store, runs the history, closes the store and removes its files.
//
// Operations besides the model's: open2 (a second open, refused), create2 (a creation over it, refused), badcreate (N chooses
// why it is refused), badopen (opening a damaged copy; N and Off choose the damage), snapread (reads N bytes of the snapshot,
// creating it if there is none), badsnap (opening next to a snapshot file that is none), jdump (the journal's entries), readfail
// (the device fails in the middle of opening a copy).
type C23Case struct {
	G       Geom
	Session bool
	Ops     []Op
}

// held is what a process holds.
type held struct {
	fds, goroutines int
	native          uint64
}

func fdNames() map[string]string {
	es, _ := os.ReadDir("/proc/self/fd")
	m := map[string]string{}
	for _, e := range es {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			m[e.Name()] = to
		}
	}
	return m
}

// fdsBelow are the open files below dir.
func fdsBelow(dir string) (out []string) {
	for _, to := range fdNames() {
		if strings.HasPrefix(to, dir+"/") {
			out = append(out, filepath.Base(to))
		}
	}
	return out
}

func settleGoroutines(most int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 600 && n > most; i++ {
		time.Sleep(time.Duration(1+i/40) * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

const c23Repeats = 6

func execC23(r *Run, c C23Case) error {
	nvm.DEFAULT_REGION_SHIFT = 20
	defer func() { nvm.DEFAULT_REGION_SHIFT = 25 }()
	// finalizers must not tidy up what the library forgot
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	var w *World
	var err error
	work := filepath.Join(r.Dir, "w")
	mustMkdir(work)
	sub := &Run{Dir: work, Tier: r.Tier, labels: map[string]int64{}, cov: map[string]int64{}} // its labels are not needed
	if c.Session {
		if w, err = newWorld(sub, c.G, "s.lusf"); err != nil {
			return err
		}
		defer w.Close()
	}
	counts := map[string]int{}
	cycle := func() error {
		if !c.Session {
			if w, err = newWorld(sub, c.G, "s.lusf"); err != nil {
				return err
			}
			defer func() { // only after a violation
				if w != nil {
					w.Close()
				}
			}()
		}
		for i, op := range c.Ops {
			if err := c23Step(sub, w, op, counts); err != nil {
				return at(err, i)
			}
		}
		if c.Session {
			for _, id := range w.sortedIDs() {
				if _, _, err := w.St.Delete(lid(id)); err != nil {
					if !isJournalFull(err) {
						return violate("delete-failed", "Delete of id %d: %v", id, err)
					}
					return errC23Stuck
				}
				delete(w.Model, id)
			}
			if err := w.Step(Op{K: "snapd"}); err != nil {
				return err
			}
			w.St.JournalGC()
			w.St.Sync()
			return nil
		}
		w.St.Close()
		w = nil
		return nil
	}
	clean := func() error {
		if c.Session {
			return nil
		}
		for _, n := range namesIn(work) {
			if n != "s.lusf" && !strings.HasSuffix(n, "_lusf.snapshot") {
				return violate("stray-file", "after closing, the directory holds %q", namesIn(work))
			}
			os.Remove(filepath.Join(work, n))
		}
		return nil
	}
	measure := func(last *held, n int) (*held, error) {
		h := &held{native: nativeInUse()}
		most := 1 << 30
		if last != nil {
			most = last.goroutines
		}
		h.goroutines = settleGoroutines(most)
		below := fdsBelow(r.Dir)
		h.fds = len(fdNames())
		want := 0
		if c.Session {
			want = 1
		}
		if len(below) > want {
			return nil, violate("open-files", "after repetition %d (store open: %v) these files are still open: %q", n, c.Session, below)
		}
		if last != nil && h.goroutines > last.goroutines {
			return nil, violate("goroutines", "%d goroutines after repetition %d, %d before it\n%s", h.goroutines, n, last.goroutines, trimStack(allStacks()))
		}
		return h, nil
	}
	var hist []*held
	step := func(i int) error {
		if err := cycle(); err != nil {
			return err
		}
		var last *held
		if len(hist) > 0 {
			last = hist[len(hist)-1]
		}
		h, err := measure(last, i)
		if err != nil {
			return err
		}
		if err := clean(); err != nil {
			return err
		}
		hist = append(hist, h)
		return nil
	}
	grows := func(what func(h *held) uint64, from, to int, by uint64) bool {
		for i := from; i < to; i++ {
			if what(hist[i]) < what(hist[i-1])+by {
				return false
			}
		}
		return true
	}
	native := func(h *held) uint64 { return h.native }
	for i := 0; i <= c23Repeats; i++ {
		if err := step(i); err == errC23Stuck {
			r.Label("not-emptied")
			return nil
		} else if err != nil {
			return err
		}
	}
	if grows(native, 2, len(hist), 16) {
		// the first repetitions may reach a new maximum; a leak goes on
		for i := 0; i < 20; i++ {
			if err := step(len(hist)); err != nil && err != errC23Stuck {
				return err
			}
		}
		if n := len(hist); grows(native, n-20, n, 16) {
			return violate("native-memory", "each of %d repetitions left more memory allocated outside of Go than the one before: %d bytes after the first, %d after the last", n, hist[0].native, hist[n-1].native)
		}
	}
	for k, v := range counts {
		if v > 0 {
			r.Label(k)
		}
	}
	if c.Session {
		r.Label("session")
	} else {
		r.Label("life")
	}
	if len(c.Ops) >= 4 && counts["refused"]+counts["snapshot"]+counts["reopen"] > 0 {
		r.NonTrivial()
	}
	return nil
}

var errC23Stuck = errors.New("the store could not be emptied")

var c23Fields = []int{0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 28, 29, 35, 36, 37, 43, 512, 513, 519, 1024, 1027, 1028, 1029}

func c23Step(r *Run, w *World, op Op, counts map[string]int) error {
	// a copy of the store for openings which must fail
	copyOf := func(change func(raw []byte) []byte) (string, error) {
		if op.N%2 == 1 {
			w.St.Sync()
		}
		raw := mustRead(w.Path)
		p := filepath.Join(r.Dir, "copy.lusf")
		return p, os.WriteFile(p, change(raw), 0644)
	}
	tryClose := func(p string) error {
		st, err, viol := tryOpen(p, w.G.capacity())
		if viol != nil {
			if v, ok := viol.(*Violation); ok && v.Class == "open-endless" {
				return viol
			}
			counts["open-panic"]++ // a matter of C09
			return nil
		}
		if err == nil {
			st.Close()
			counts["opened"]++
			return nil
		}
		counts["refused"]++
		return nil
	}
	switch op.K {
	case "open2":
		if st, err := storage.OpenCannylsStorage(w.Path); err == nil {
			st.Close()
			return violate("opened-twice", "the open store could be opened a second time")
		}
		counts["refused"]++
	case "create2":
		if st, err := storage.CreateCannylsStorage(w.Path, 40*blk, 0.2); err == nil {
			st.Close()
			return violate("create-accepted", "created a store over the existing one")
		}
		counts["refused"]++
	case "badcreate":
		p, size, ratio := filepath.Join(r.Dir, "n.lusf"), uint64(40*blk), 0.2
		switch op.N % 5 {
		case 0:
			size++
		case 1:
			size = 2 * blk
		case 2:
			ratio = 1.5
		case 3:
			size = 1 << 50
		case 4:
			p = filepath.Join(r.Dir, "n.txt")
		}
		if st, err := storage.CreateCannylsStorage(p, size, ratio); err == nil {
			st.Close()
			return violate("create-accepted", "an impossible store (%d bytes, ratio %v, %s) was created", size, ratio, p)
		}
		counts["refused"]++
	case "badopen":
		p, err := copyOf(func(raw []byte) []byte {
			if op.N%8 == 7 {
				return raw[:int(op.Off)%len(raw)]
			}
			if op.N%4 == 1 { // a record somewhere
				if f := 2*blk + int(op.Off)%((w.G.J-1)*blk); f < len(raw) {
					raw[f] ^= byte(1 + op.Seed%255)
				}
				return raw
			}
			if f := c23Fields[op.N%len(c23Fields)]; f < len(raw) {
				raw[f] ^= byte(1 + op.Off%255)
			}
			return raw
		})
		if err != nil {
			harnessFail(err)
		}
		defer os.Remove(p)
		return tryClose(p)
	case "readfail":
		p, err := copyOf(func(raw []byte) []byte { return raw })
		if err != nil {
			harnessFail(err)
		}
		defer os.Remove(p)
		n := 0
		old := hookFn
		setHook(func(io *nvm.VerifIO) error {
			if !io.After && filepath.Base(io.Path) == "copy.lusf" {
				if n++; n > op.N%6 {
					return errors.New("verif: injected")
				}
			}
			return nil
		})
		st, err := storage.OpenCannylsStorage(p)
		setHook(old)
		if err == nil {
			st.Close()
			counts["opened"]++
			return nil
		}
		counts["refused"]++
	case "badsnap":
		p, err := copyOf(func(raw []byte) []byte { return raw })
		if err != nil {
			harnessFail(err)
		}
		defer os.Remove(p)
		s := filepath.Join(r.Dir, "copy_123e4567-e89b-12d3-a456-426655440000_lusf.snapshot")
		junk := append([]byte("snap"), payload(op.N, int(op.Off)%2000)...)
		if op.N%3 == 0 {
			junk[0] = 'x'
		}
		if err := os.WriteFile(s, junk, 0644); err != nil {
			harnessFail(err)
		}
		defer os.Remove(s)
		return tryClose(p)
	case "snapread":
		rd, err := w.St.GetSnapshotReader()
		if err != nil {
			return violate("snapshot", "GetSnapshotReader: %v", err)
		}
		w.Snapshot = true
		if _, err := io.CopyN(io.Discard, rd, int64(op.N)); err != nil && err != io.EOF {
			return violate("snapshot", "reading the snapshot: %v", err)
		}
		counts["snapshot"]++
	case "snapc":
		if w.Snapshot {
			if w.St.CreateSnapshot() == nil {
				return violate("snapshot", "a second snapshot was created")
			}
			return nil
		}
		counts["snapshot"]++
		return w.Step(op)
	case "jdump":
		w.St.JournalSnapshot()
		w.St.Usage()
		w.St.GetAllocationStatus()
	default:
		if op.K == "reopen" {
			counts["reopen"]++
		}
		return w.Step(op)
	}
	return nil
}

var c23Kinds = expand([]weighted{{"put", 10}, {"embed", 8}, {"pwo", 3}, {"del", 4}, {"delr", 2}, {"get", 3}, {"gwo", 2}, {"query", 2}, {"list", 1}, {"reopen", 3}, {"sync", 2}, {"flush", 1}, {"side", 2}, {"gc", 2},
	{"snapc", 3}, {"snapd", 3}, {"snapread", 3}, {"open2", 2}, {"create2", 1}, {"badcreate", 2}, {"badopen", 3}, {"readfail", 2}, {"badsnap", 2}, {"jdump", 2}, {"rerec", 1}})

func genC23(t *rapid.T, tier string) C23Case {
	var c C23Case
	c.Session = rapid.Bool().Draw(t, "session")
	c.G = Geom{J: uniform(t, 3, 12, "J"), D: uniform(t, 4, 60, "D")}
	if rare(t, 6) {
		c.G.D = uniform(t, 8000, 9000, "D") // more than one entry of the allocation picture
	}
	if rare(t, 20) {
		c.G.J = uniform(t, 10000, 14000, "J") // more than a reader of the journal reads ahead
	}
	ids := genIDs(t)
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		op := genOp(t, c23Kinds, ids, c.G, 5)
		switch op.K {
		case "badopen", "readfail", "badcreate", "badsnap":
			op.N, op.Off = uniform(t, 0, 60, "what"), uint32(uniform(t, 0, 4000, "where"))
			if rapid.Bool().Draw(t, "early") {
				op.Off %= 400
			}
		case "snapread":
			op.N = uniform(t, 0, 8000, "bytes")
		}
		return op
	}), 1, uniform(t, 2, 40, "most")).Draw(t, "ops")
	return c
}

func init() {
	register(&PBT[C23Case]{
		Id: "C23",
		RuleText: "rapid draws a history (model operations, reopening, snapshots created, read and deleted, refused creations, refused second openings, openings of damaged copies, of copies on a failing device and next to damaged snapshot files, all queries). " +
			"Half of the cases repeat it on a store that stays open, emptying it at the end of each repetition; the others create, use, close and remove a store per repetition. After each of at least 7 repetitions no file of the case is open (but the open store's own), " +
			"no goroutine is left over, no temporary file remains; memory allocated outside of Go (counted exactly, through the allocator's statistics without thread caches) does not grow with each repetition, confirmed over 20 more. " +
			"Garbage collection is off during a repetition so that finalizers do not hide a forgotten file. Non-trivial: at least 4 operations with a refused opening or creation, a snapshot or a reopening.",
		Gen:      genC23,
		Exec:     execC23,
		Quick:    Budget{Cases: 2500, Seconds: 40},
		Thorough: Budget{Cases: 60000, Seconds: 500},
		Assume:   []string{"memory freed by Go's garbage collector is not judged", "native memory is judged by growth in each of 27 repetitions of the same history"},
	})
}

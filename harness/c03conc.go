package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"

	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
	"pgregory.net/rapid"
)

// ConcOp is one operation of one goroutine: put, embed, del, delr (all its ids from ID on), sync, flush, side, gc.
type ConcOp struct {
	K     string
	ID    int `json:",omitempty"`
	Size  int `json:",omitempty"`
	Seed  int `json:",omitempty"`
	Yield int `json:",omitempty"`
}

// C03Conc lets several goroutines, each with ids of its own, use one store; the file as it is after some of the device
// writes is opened as a store of its own afterwards. There is room for everything: no operation may fail.
type C03Conc struct {
	Progs [][]ConcOp
	J, D  int
	Pick  uint64
	Every int
}

const concIDs = 6

func genC03Conc(t *rapid.T) *C03Conc {
	c := &C03Conc{Pick: rapid.Uint64Range(0, 1<<20).Draw(t, "pick")}
	kinds := expand([]weighted{{"put", 7}, {"embed", 6}, {"del", 3}, {"delr", 1}, {"sync", 5}, {"flush", 1}, {"side", 3}, {"gc", 1}})
	total := 0
	for i := uniform(t, 2, 4, "workers"); i > 0; i-- {
		p := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ConcOp {
			op := ConcOp{K: rapid.SampledFrom(kinds).Draw(t, "kind"), ID: rapid.IntRange(0, concIDs-1).Draw(t, "id"), Seed: rapid.IntRange(1, 250).Draw(t, "seed")}
			switch op.K {
			case "put":
				op.Size = uniform(t, 0, 1400, "size")
			case "embed":
				op.Size = uniform(t, 0, 100, "size")
			}
			if rapid.IntRange(0, 3).Draw(t, "y?") == 0 {
				op.Yield = uniform(t, 1, 30, "yield")
			}
			return op
		}), uniform(t, 1, 25, "min"), 40).Draw(t, "prog")
		c.Progs = append(c.Progs, p)
		total += len(p)
	}
	// live records: at most 24 of 115 bytes
	c.J = uniform(t, 45, 70, "J")
	c.D = 40*len(c.Progs) + 3*total
	c.Every = 1 + total*2/12
	return c
}

// concState is what one goroutine's objects are after some of its operations.
type concState map[int][]byte

// concHist is the history of one goroutine. All fields but states are guarded by concRun.mu.
type concHist struct {
	states []concState // states[k]: after k operations
	inv    []int       // clock when operation k+1 was called
	ret    []int       // and when it returned, 0: not yet
	done   int         // operations returned
	issued int         // operations called
}

type concImage struct {
	n      int
	raw    []byte
	synced []int
	issued []int
}

type concRun struct {
	mu     sync.Mutex
	clock  int
	hist   []*concHist
	synced []int
	dev    sync.RWMutex // held shared during device writes, exclusively while the file is copied
	writes int
	images []concImage
}

func (x *concRun) tick() int { x.clock++; return x.clock }

func execC03Conc(r *Run, c C03Conc) error {
	g := Geom{J: c.J, D: c.D}
	path := filepath.Join(r.Dir, "s.lusf")
	st, err := storage.CreateCannylsStorage(path, g.capacity(), g.ratio())
	if err != nil {
		return violate("create-failed", "%v", err)
	}
	x := &concRun{synced: make([]int, len(c.Progs))}
	for _, p := range c.Progs {
		h := &concHist{states: []concState{{}}}
		for _, op := range p {
			next := concState{}
			for id, d := range h.states[len(h.states)-1] {
				next[id] = d
			}
			switch op.K {
			case "put", "embed":
				next[op.ID] = payload(op.Seed, op.Size)
			case "del":
				delete(next, op.ID)
			case "delr":
				for id := op.ID; id < concIDs; id++ {
					delete(next, id)
				}
			}
			h.states = append(h.states, next)
		}
		h.inv, h.ret = make([]int, len(p)), make([]int, len(p))
		x.hist = append(x.hist, h)
	}
	setHook(func(io *nvm.VerifIO) error {
		if io.Path != path || io.Op != "write" {
			return nil
		}
		if !io.After {
			x.dev.RLock()
			return nil
		}
		x.dev.RUnlock()
		x.mu.Lock()
		x.writes++
		n := x.writes
		x.mu.Unlock()
		if mix(c.Pick, uint64(n))%uint64(c.Every) == 0 {
			x.copy(path, n)
		}
		return nil
	})
	defer setHook(nil)
	var wg sync.WaitGroup
	errs := make([]error, len(c.Progs))
	gate := make(chan struct{})
	for i, p := range c.Progs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[i] = violate("panic", "%v", e)
				}
			}()
			<-gate
			for k, op := range p {
				for y := 0; y < op.Yield; y++ {
					runtime.Gosched()
				}
				if err := x.step(st, i, k, op); err != nil {
					errs[i] = violate("operation-failed", "%+v of goroutine %d failed in a store with room for everything: %v", op, i, err)
					return
				}
			}
		}()
	}
	close(gate)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	st.Sync()
	for i, h := range x.hist {
		x.synced[i] = h.done
	}
	x.copy(path, x.writes)
	setHook(nil)
	st.Close()
	raw, err := os.ReadFile(path)
	if err != nil {
		harnessFail(err)
	}
	last := x.images[len(x.images)-1]
	last.raw = raw
	x.images = append(x.images, last)
	middle := 0
	for i, img := range x.images {
		m, err := x.recover(r, img, g, i)
		if err != nil {
			return err
		}
		middle += m
	}
	r.Label("concurrent-writers")
	if middle > 0 {
		r.Label("concurrent-unsynced")
		r.NonTrivial()
	}
	r.Count("crash_points_recovered", int64(len(x.images)))
	r.Count("device_writes", int64(x.writes))
	return nil
}

// copy keeps the file as it is between two device writes, with what must and may be in it.
func (x *concRun) copy(path string, n int) {
	x.dev.Lock()
	defer x.dev.Unlock()
	x.mu.Lock()
	img := concImage{n: n, synced: append([]int(nil), x.synced...)}
	x.mu.Unlock()
	raw, err := os.ReadFile(path)
	if err != nil {
		harnessFail(err)
	}
	img.raw = raw
	x.mu.Lock()
	for _, h := range x.hist {
		img.issued = append(img.issued, h.issued)
	}
	x.images = append(x.images, img)
	x.mu.Unlock()
}

func (x *concRun) step(st *storage.Storage, i, k int, op ConcOp) error {
	h := x.hist[i]
	id := uint64(i*100 + op.ID)
	var before []int
	x.mu.Lock()
	h.issued = k + 1
	h.inv[k] = x.tick()
	for _, o := range x.hist {
		before = append(before, o.done)
	}
	x.mu.Unlock()
	var err error
	switch op.K {
	case "put":
		_, err = st.Put(lid(id), mkLump(payload(op.Seed, op.Size), 0))
	case "embed":
		_, err = st.PutEmbed(lid(id), payload(op.Seed, op.Size))
	case "del":
		_, _, err = st.Delete(lid(id))
	case "delr":
		err = st.DeleteRange(lid(id), lid(uint64(i*100+concIDs)), true)
	case "sync":
		st.Sync()
	case "flush":
		st.Flush()
	case "side":
		st.RunSideJobOnce(1 + op.Seed%5)
	case "gc":
		st.JournalGC()
	}
	x.mu.Lock()
	h.ret[k] = x.tick()
	h.done = k + 1
	if op.K == "sync" && err == nil {
		for j, d := range before {
			x.synced[j] = max(x.synced[j], d)
		}
	}
	x.mu.Unlock()
	return err
}

func sameState(a, b concState) bool {
	if len(a) != len(b) {
		return false
	}
	for id, d := range a {
		e, ok := b[id]
		if !ok || !bytes.Equal(d, e) {
			return false
		}
	}
	return true
}

// recover opens the file as it was and checks it. It tells whether something unsynced was in it or missing.
func (x *concRun) recover(r *Run, img concImage, g Geom, n int) (int, error) {
	path := filepath.Join(r.Dir, fmt.Sprintf("crash%d.lusf", n))
	if err := os.WriteFile(path, img.raw, 0644); err != nil {
		harnessFail(err)
	}
	defer os.Remove(path)
	fail := func(class, format string, a ...any) (int, error) {
		return 0, violate(class, "stopped after device write %d with %d goroutines: %s", img.n, len(x.hist), fmt.Sprintf(format, a...))
	}
	st, err := openBounded(path, g.capacity())
	if err != nil {
		return fail("crash-open", "%v", err)
	}
	w := &World{R: r, Path: path, G: g, St: st, Model: map[uint64]*Obj{}, Ring: int64(g.J-1) * blk, Autogc: true}
	defer func() { w.Close() }()
	rec := make([]concState, len(x.hist))
	for i := range rec {
		rec[i] = concState{}
	}
	for _, id := range st.List() {
		d, err := st.Get(id)
		if err != nil {
			return fail("crash-state", "id %d can not be read: %v", id.U64(), err)
		}
		i, k := int(id.U64()/100), int(id.U64()%100)
		if id.U64() >= uint64(len(x.hist)*100) || k >= concIDs {
			return fail("crash-state", "there is an id %d which nobody stored", id.U64())
		}
		rec[i][k] = d
		o := &Obj{Data: d, Embed: true}
		if p, err := st.GetRecord(id); err == nil {
			o.Embed, o.Blocks = false, int(p.Len)
		}
		w.Model[id.U64()] = o
	}
	// every goroutine's objects are those after some of its operations, not fewer than were synced
	lo, hi := make([]int, len(x.hist)), make([]int, len(x.hist))
	middle := 0
	for i, h := range x.hist {
		lo[i] = -1
		for k := img.synced[i]; k <= img.issued[i]; k++ {
			if sameState(h.states[k], rec[i]) {
				if lo[i] < 0 {
					lo[i] = k
				}
				hi[i] = k
			}
		}
		if lo[i] < 0 {
			ids := map[int]string{}
			for id := 0; id < concIDs; id++ {
				ids[id] = fmt.Sprintf("synced %s, stored %s", brief(h.states[img.synced[i]], id), brief(rec[i], id))
			}
			return fail("crash-state", "the objects of goroutine %d are not those after any %d to %d of its operations: %v", i, img.synced[i], img.issued[i], ids)
		}
		if img.issued[i] > img.synced[i] {
			middle = 1
		}
	}
	// an operation called after another one returned is never kept without it
	for a, h := range x.hist {
		if hi[a] >= img.issued[a] {
			continue
		}
		lost := hi[a] // the operation number hi+1 is certainly not in the file
		for b, o := range x.hist {
			if lo[b] == 0 {
				continue
			}
			kept := lo[b] - 1 // and this one certainly is
			if a != b && h.ret[lost] != 0 && h.ret[lost] < o.inv[kept] {
				return fail("crash-order", "operation %d of goroutine %d is kept, and operation %d of goroutine %d, which had returned before, is not", kept, b, lost, a)
			}
		}
	}
	if err := w.checkSpace(); err != nil {
		return 0, wrapClass("after-crash-", err)
	}
	w.St.JournalGC()
	if err := w.checkAll(); err != nil {
		return 0, wrapClass("after-crash-", err)
	}
	if err := w.Reopen(); err != nil {
		return 0, wrapClass("after-crash-", err)
	}
	if err := w.checkAll(); err != nil {
		return 0, wrapClass("after-crash-", err)
	}
	return middle, nil
}

func brief(s concState, id int) string {
	d, ok := s[id]
	if !ok {
		return "nothing"
	}
	return fmt.Sprintf("%d bytes", len(d))
}

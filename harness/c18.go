package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"

	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
	"pgregory.net/rapid"
)

// Fault makes device operations fail: counted from the start of operation Op, the Nth and the Count-1 following device
// operations of a kind.
type Fault struct {
	Op    int
	Kind  string // "read", "write", "sync", "any"
	Nth   int
	Count int
	Torn  int `json:",omitempty"` // a failing write to the data region still writes that many sectors
}

// C18Op is an operation; V asks for a complete check after it.
type C18Op struct {
	V bool `json:",omitempty"`
	Op
}

// C18Case is a history with failing device operations.
type C18Case struct {
	G      Geom
	Create *Fault `json:",omitempty"`
	Ops    []C18Op
	Faults []Fault
	Open   *Fault `json:",omitempty"` // failures while the final state is opened
	Full   []Full `json:",omitempty"` // the disk has no room for what a snapshot has to save
}

// Full is a disk without space during operations From to To: no file can grow beyond the size of the store and Room.
type Full struct {
	From, To int
	Room     int
}

type armed struct {
	Fault
	seen int
}

// faulty is a store on a failing device.
type faulty struct {
	*World
	faults   []*armed
	injected int
	room     int   // >0: no file can grow beyond this size
	critical int   // of those: syncs, and reads and writes in front of the data region
	base     int64 // start of the data region
	durable  map[uint64]*Obj
	touched  map[uint64]bool
	ever     map[uint64]bool
	img      *snapImage
}

func (w *faulty) hook(io *nvm.VerifIO) error {
	if io.After || filepath.Base(io.Path) != "s.lusf" {
		return nil
	}
	for _, f := range w.faults {
		if f.Kind != "any" && f.Kind != io.Op {
			continue
		}
		f.seen++
		if f.seen >= f.Nth && f.seen < f.Nth+f.Count {
			w.injected++
			if io.Op == "sync" || io.Off < w.base {
				w.critical++
			}
			w.R.Label("failed-" + io.Op)
			if f.Torn > 0 && io.Op == "write" && io.Off >= w.base && w.base > 0 {
				n := f.Torn * blk
				if n < len(io.Buf) {
					fl, err := os.OpenFile(io.Path, os.O_WRONLY, 0)
					if err == nil {
						_, err = fl.WriteAt(io.Buf[:n], io.Off)
						fl.Close()
					}
					if err != nil {
						harnessFail(err)
					}
					w.R.Label("torn-write")
				}
			}
			return errInjected
		}
	}
	return nil
}

// guarded calls f with the faults armed. A panic is returned as text.
func (w *faulty) guarded(f func()) (failed bool, panicked string) {
	before := w.injected
	setHook(w.hook)
	if w.room > 0 {
		limitFiles(w.room)
	}
	defer func() {
		setHook(nil)
		if w.room > 0 {
			limitFiles(0)
		}
		failed = w.injected > before
		if x := recover(); x != nil {
			switch x.(type) {
			case *HarnessError, *Violation:
				panic(x)
			}
			panicked = fmt.Sprintf("%v\n%s", x, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return
}

// candidate states of an object after an operation
func (w *faulty) resolve(op Op, id uint64, old, next *Obj, err error) error {
	got, gerr := w.St.Get(lid(id))
	_, derr := w.St.GetSizeOnDisk(lid(id))
	if derr != nil { // the id does not exist
		if old == nil || next == nil {
			delete(w.Model, id)
			return nil
		}
		if op.K == "put" || op.K == "embed" {
			delete(w.Model, id)
			w.R.Label("replaced-and-lost")
			return nil
		}
		return violate("failed-op-lost", "%s of id %d failed (%v), and the id is gone", op.K, id, err)
	}
	if gerr != nil {
		return violate("failed-op-unreadable", "%s of id %d failed (%v); the device works again, but Get says %v", op.K, id, err, gerr)
	}
	if old != nil && bytes.Equal(got, old.Data) {
		return nil
	}
	if op.K == "pwo" && old != nil {
		if len(got) != len(old.Data) {
			return violate("failed-op-corrupts", "%s of id %d failed (%v), and its size changed from %d to %d", op.K, id, err, len(old.Data), len(got))
		}
		data := payload(op.Seed, op.Size)
		for i, b := range got {
			j := i - int(op.Off)
			if b != old.Data[i] && !(j >= 0 && j < len(data) && b == data[j]) {
				return violate("failed-op-corrupts", "%s of id %d (%d bytes at %d) failed (%v), and byte %d is neither the old nor the new one", op.K, id, op.Size, op.Off, err, i)
			}
		}
		w.Model[id] = &Obj{Data: got, Blocks: old.Blocks}
		w.R.Label("partial-update")
		return nil
	}
	if next != nil && bytes.Equal(got, next.Data) {
		w.Model[id] = next
		w.R.Label("failed-but-done")
		return nil
	}
	if old == nil {
		return violate("failed-op-effect", "%s of absent id %d failed (%v), and now it has %d bytes which nobody wrote", op.K, id, err, len(got))
	}
	return violate("failed-op-corrupts", "%s of id %d failed (%v): %s", op.K, id, err, diffBytes(got, old.Data))
}

func (w *faulty) clone() map[uint64]*Obj {
	m := map[uint64]*Obj{}
	for id, o := range w.Model {
		m[id] = o
	}
	return m
}

func (w *faulty) synced() {
	w.durable, w.touched = w.clone(), map[uint64]bool{}
}

// step executes one operation with the faults armed. stop: the store gave up (a panic because of a failing device).
func (w *faulty) step(op Op) (stop bool, err error) {
	st, id := w.St, op.ID
	old := w.Model[id]
	var failed bool
	var pan string
	critical := w.critical
	touch := func(id uint64) { w.touched[id] = true; w.ever[id] = true }
	// mutate runs an operation on one object
	mutate := func(next *Obj, f func() error) error {
		touch(id)
		var e error
		failed, pan = w.guarded(func() { e = f() })
		if pan != "" {
			return nil
		}
		if e == nil {
			if next == nil {
				delete(w.Model, id)
			} else {
				w.Model[id] = next
			}
			return nil
		}
		w.noteFull(e)
		if !failed && w.room > 0 && w.img != nil && !isFull(e) && !isInvalid(e) {
			failed = true
			w.R.Label("snapshot-without-space")
		}
		if !failed && !isFull(e) && !isInvalid(e) {
			return violate("still-failing", "%s of id %d: %v, although no device operation failed", op.K, id, e)
		}
		if failed {
			w.R.Label("error-reported")
		}
		return w.resolve(op, id, old, next, e)
	}
	switch op.K {
	case "put":
		l := mkLump(payload(op.Seed, op.Size), op.Mis)
		if op.Size > lump.LUMP_MAX_SIZE {
			return false, nil
		}
		err = mutate(dataObj(payload(op.Seed, op.Size)), func() error { _, e := st.Put(lid(id), l); return e })
	case "embed":
		if op.Size > 0xffff {
			return false, nil
		}
		err = mutate(&Obj{Data: payload(op.Seed, op.Size), Embed: true}, func() error { _, e := st.PutEmbed(lid(id), payload(op.Seed, op.Size)); return e })
	case "pwo":
		data := payload(op.Seed, op.Size)
		var next *Obj
		if old == nil {
			full := make([]byte, max(int(op.Len), int(op.Off)+op.Size))
			copy(full[op.Off:], data)
			next = dataObj(full)
		} else {
			nd := append([]byte(nil), old.Data...)
			if int(op.Off) <= len(nd) {
				copy(nd[op.Off:], data)
			}
			next = &Obj{Data: nd, Blocks: old.Blocks}
		}
		err = mutate(next, func() error { return st.PutWithOffset(lid(id), mkLump(data, op.Mis), op.Off, op.Len) })
	case "del":
		err = mutate(nil, func() error { _, _, e := st.Delete(lid(id)); return e })
	case "delr":
		next := w.clone()
		for k := range w.Model {
			if k >= op.ID && k < op.End {
				touch(k)
				delete(next, k)
			}
		}
		var e error
		failed, pan = w.guarded(func() { e = st.DeleteRange(lid(op.ID), lid(op.End), true) })
		if pan == "" {
			if e == nil {
				w.Model = next
			} else if !failed && w.room == 0 && !isFull(e) {
				return false, violate("still-failing", "%s: %v, although no device operation failed", op.K, e)
			} else if len(st.List()) != len(w.Model) {
				w.Model = next
			}
		}
	case "get", "gsz", "gwo":
		// a read either fails or is right
		var got []byte
		var n uint32
		var e error
		failed, pan = w.guarded(func() {
			switch op.K {
			case "get":
				got, e = st.Get(lid(id))
			case "gsz":
				n, e = st.GetSize(lid(id))
			default:
				got, e = st.GetWithOffset(lid(id), op.Off, op.Len)
			}
		})
		if pan != "" || e != nil && (failed || w.room > 0 && w.img != nil) { // reading an embedded object may write the journal
			w.R.Label("error-reported")
			break
		}
		if op.K == "gwo" {
			if e == nil && old != nil {
				if int(op.Off) > len(old.Data) || !bytes.Equal(got, old.Data[op.Off:min(len(old.Data), int(op.Off)+int(op.Len))]) {
					err = violate("wrong-read", "GetWithOffset(%d,%d) of id %d gave %d wrong bytes (device operations failed: %v)", op.Off, op.Len, id, len(got), failed)
				}
			}
			break
		}
		if (e == nil) != (old != nil) || old != nil && (op.K == "get" && !bytes.Equal(got, old.Data) || op.K == "gsz" && int(n) != len(old.Data)) {
			err = violate("wrong-read", "%s of id %d gave %d/%d bytes, %v (device operations failed: %v)", op.K, id, len(got), n, e, failed)
		}
	case "sync":
		failed, pan = w.guarded(func() { st.Sync() })
		if pan == "" && failed {
			err = violate("sync-acknowledged", "Sync returned although a device operation failed")
		} else if pan == "" {
			w.synced()
		}
	case "flush":
		failed, pan = w.guarded(func() { st.Flush() })
	case "side":
		failed, pan = w.guarded(func() { st.RunSideJobOnce(op.N) })
	case "gc":
		failed, pan = w.guarded(func() { st.JournalGC() })
	case "jsnap":
		failed, pan = w.guarded(func() { st.JournalSnapshot() })
	case "autogc":
		w.Autogc = op.N%2 == 0
		st.SetAutomaticGcMode(w.Autogc)
	case "snapc":
		if w.img != nil {
			return false, nil
		}
		var e error
		failed, pan = w.guarded(func() { e = st.CreateSnapshot() })
		if pan == "" && e != nil && !failed && w.room == 0 {
			return false, violate("still-failing", "CreateSnapshot: %v, although no device operation failed", e)
		}
		if pan == "" && e == nil {
			if failed {
				return false, violate("sync-acknowledged", "CreateSnapshot returned although a device operation failed")
			}
			w.synced()
			sw := &snapWorld{World: w.World}
			sw.take()
			w.img = sw.img
			w.R.Label("snapshot")
		}
	case "reopen":
		var e error
		failed, pan = w.guarded(func() { st.Close() })
		if pan != "" {
			break
		}
		if failed {
			return false, violate("sync-acknowledged", "Close returned although a device operation failed")
		}
		w.synced()
		var st2 *storage.Storage
		failed, pan = w.guarded(func() { st2, e = storage.OpenCannylsStorage(w.Path) })
		if pan != "" {
			return false, violate("open-panic", "opening with a failing device panicked: %s", pan)
		}
		if e != nil {
			if !failed {
				return false, violate("still-failing", "opening: %v, although no device operation failed", e)
			}
			w.R.Label("open-error-reported")
			if st2, e = openBounded(w.Path, w.G.capacity()); e != nil {
				return false, violate("not-released", "opening failed because of the device; it works again, but: %v", e)
			}
		}
		w.St = st2
		w.St.SetAutomaticGcMode(w.Autogc)
		if failed {
			if err := w.checkAll(); err != nil {
				return false, wrapClass("open-failed-silently-", err)
			}
		}
	case "check":
		return false, w.verify()
	default:
		harnessFail(fmt.Errorf("unknown op %q", op.K))
	}
	if pan != "" {
		if w.room > 0 && w.img != nil && op.K != "get" && op.K != "gsz" && op.K != "gwo" {
			w.R.Label("gave-up-without-space")
			return true, nil
		}
		if !failed {
			return false, violate("panic", "%s panicked although no device operation failed: %s", op.K, pan)
		}
		if w.critical == critical || op.K == "get" || op.K == "gsz" || op.K == "gwo" {
			return false, violate("panic-not-error", "%s panicked instead of returning an error (no sync failed, no access to the journal on behalf of a write): %s", op.K, pan)
		}
		w.R.Label("gave-up")
		return true, nil
	}
	return false, err
}

// verify compares everything, with a working device.
func (w *faulty) verify() error {
	if err := w.checkAll(); err != nil {
		return err
	}
	if err := w.checkSpace(); err != nil {
		return err
	}
	if w.img != nil {
		rd, err := w.St.GetSnapshotReader()
		if err != nil {
			return violate("snapshot-reader", "GetSnapshotReader: %v", err)
		}
		w.synced() // making a reader syncs
		return wholeImage(rd, w.img, 4096)
	}
	return nil
}

// afterCrash opens a copy of what is on the device and checks what was synced.
func (w *faulty) afterCrash(why string, open *Fault) error {
	dir := filepath.Join(w.R.Dir, "crash")
	if err := os.MkdirAll(dir, 0755); err != nil {
		harnessFail(err)
	}
	path := filepath.Join(dir, "s.lusf")
	if err := copyFile(path, w.Path); err != nil {
		harnessFail(err)
	}
	if open != nil {
		w.faults = []*armed{{Fault: *open}}
		var st *storage.Storage
		var e error
		failed, pan := w.guarded(func() { st, e = storage.OpenCannylsStorage(path) })
		if pan != "" {
			return violate("open-panic", "opening with a failing device panicked: %s", pan)
		}
		if e == nil {
			err := w.judge(st, why+", failures while opening")
			st.Close()
			return err
		}
		if !failed {
			return violate("crash-open-failed", "opening (%s): %v", why, e)
		}
		w.R.Label("open-error-reported")
	}
	st, err := openBounded(path, w.G.capacity())
	if err != nil {
		return wrapClass("crash-", err)
	}
	defer st.Close()
	return w.judge(st, why)
}

func (w *faulty) judge(st *storage.Storage, why string) error {
	for id := range w.ever {
		if w.touched[id] {
			continue
		}
		want := w.durable[id]
		got, err := st.Get(lid(id))
		switch {
		case want == nil && err == nil:
			return violate("crash-revived", "after %s: id %d was deleted before the last sync and not touched since, but is there again", why, id)
		case want != nil && err != nil:
			return violate("crash-lost", "after %s: id %d was synced and not touched since, but Get says %v", why, id, err)
		case want != nil && !bytes.Equal(got, want.Data):
			return violate("crash-lost", "after %s: id %d was synced and not touched since, but %s", why, id, diffBytes(got, want.Data))
		}
	}
	var live uint64
	for _, id := range st.List() {
		if !w.ever[id.U64()] {
			return violate("crash-ghost", "after %s: id %d was never written", why, id.U64())
		}
		if p, err := st.GetRecord(id); err == nil {
			live += uint64(p.Len) * blk
		}
	}
	if free := st.Usage().DataFreeBytes; free+live != uint64(w.G.D)*blk {
		return violate("crash-space", "after %s: %d bytes are live and %d free, of %d", why, live, free, w.G.D*blk)
	}
	return nil
}

var c18Kinds = expand([]weighted{{"put", 14}, {"embed", 12}, {"pwo", 6}, {"del", 6}, {"delr", 1}, {"get", 4}, {"gsz", 2}, {"gwo", 2}, {"sync", 8}, {"flush", 2},
	{"side", 6}, {"gc", 3}, {"autogc", 1}, {"reopen", 2}, {"check", 2}, {"snapc", 1}, {"jsnap", 1}})

func genFault(t *rapid.T, ops int) Fault {
	f := Fault{Kind: rapid.SampledFrom([]string{"write", "write", "write", "read", "read", "sync", "any"}).Draw(t, "fkind")}
	if ops > 0 {
		f.Op = rapid.IntRange(0, ops-1).Draw(t, "fop")
	}
	f.Nth = rapid.SampledFrom([]int{1, 1, 1, 1, 2, 3, 4, 6}).Draw(t, "fnth")
	f.Count = rapid.SampledFrom([]int{1, 1, 1, 1, 2, 3, 5, 20}).Draw(t, "fcount")
	if rapid.IntRange(0, 2).Draw(t, "torn?") == 0 {
		f.Torn = rapid.IntRange(1, 4).Draw(t, "torn")
	}
	return f
}

// genFull draws a history with a snapshot on a disk which is full now and then.
func genFull(t *rapid.T, c C18Case, ids []uint64) C18Case {
	mb := min(5, c.G.D)
	if rapid.Bool().Draw(t, "regions") { // several regions of 1 MiB
		c.G.D = uniform(t, 2100, 8200, "D")
		mb = 1200
	}
	kinds := append(append([]string(nil), c18Kinds...), "snapc", "snapc", "snapc", "check", "sync", "sync", "put", "put", "put")
	n := uniform(t, 3, 30, "n")
	c.Ops = append(c.Ops, C18Op{Op: genOp(t, []string{"put"}, ids, c.G, mb)}, C18Op{Op: genOp(t, []string{"embed"}, ids, c.G, mb)}, C18Op{Op: Op{K: "snapc"}})
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, C18Op{Op: genOp(t, kinds, ids, c.G, mb), V: rapid.IntRange(0, 2).Draw(t, "verify") == 0})
	}
	for i := uniform(t, 1, 3, "fulls"); i > 0; i-- {
		f := Full{From: uniform(t, 0, n+2, "from")}
		f.To = f.From + uniform(t, 0, 5, "len")
		f.Room = uniform(t, 0, 3<<20, "room")
		if c.G.D < 100 {
			f.Room %= 1 << 20
		}
		c.Full = append(c.Full, f)
	}
	return c
}

func init() {
	register(&PBT[C18Case]{
		Id: "C18",
		RuleText: "rapid draws a small store, up to 70 operations and up to 8 faults (the n-th device read, write or sync counted from the start of an operation fails, once or several times in a row; a failing data write may leave some of its sectors). " +
			"An operation that needed a failed device operation must return an error, or give up with a panic (which counts as a crash); Sync, Close and CreateSnapshot must not return; reads must fail or be right; the target of a failed operation must hold its old or its new contents " +
			"(an offset write: any mixture), everything else and the space accounting must be exactly those of the model, also for an existing snapshot. After a panic, or at the end, a copy of the file is opened (also with failures while opening): " +
			"every id synced by the last acknowledged sync and not touched since must be exact. Creation is also done with failures. In one case in 5 the disk has no room (a file size limit) for the regions a snapshot has to save. Non-trivial: a device operation failed and operations after it were verified.",
		Assume: []string{"a panic caused by a failing journal flush is the reported failure of the operation, and the process ends with it", "a failed journal write writes nothing; the store's data writes may be torn"},
		Gen: func(t *rapid.T, tier string) C18Case {
			c := C18Case{G: Geom{J: rapid.IntRange(2, 8).Draw(t, "J"), D: rapid.IntRange(1, 24).Draw(t, "D")}}
			ids := genIDs(t)
			mb := min(5, c.G.D)
			if rare(t, 5) {
				return genFull(t, c, ids)
			}
			lo := rapid.SampledFrom([]int{1, 1, 30}).Draw(t, "minops")
			c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) C18Op {
				return C18Op{Op: genOp(t, c18Kinds, ids, c.G, mb), V: rapid.IntRange(0, 2).Draw(t, "verify") == 0}
			}), lo, 70).Draw(t, "ops")
			c.Faults = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Fault { return genFault(t, len(c.Ops)) }), 1, 8).Draw(t, "faults")
			if rapid.IntRange(0, 9).Draw(t, "create?") == 0 {
				f := genFault(t, 0)
				c.Create = &f
			}
			if rapid.IntRange(0, 2).Draw(t, "open?") == 0 {
				f := genFault(t, 0)
				c.Open = &f
			}
			return c
		},
		Exec:     execC18,
		Quick:    Budget{Cases: 15000, Seconds: 40},
		Thorough: Budget{Cases: 150000, Seconds: 600},
	})
}

func execC18(r *Run, c C18Case) error {
	if c.Create != nil {
		if err := createFaulty(r, c); err != nil {
			return err
		}
	}
	nvm.DEFAULT_REGION_SHIFT = 20
	defer func() { nvm.DEFAULT_REGION_SHIFT = 25 }()
	base, err := newWorld(r, c.G, "s.lusf")
	if err != nil {
		return err
	}
	w := &faulty{World: base, base: int64(1+c.G.J) * blk, ever: map[uint64]bool{}}
	w.synced()
	defer func() {
		resetHooks()
		if w.St != nil {
			protect(func() error { w.St.Close(); return nil })
		}
	}()
	for i, op := range c.Ops {
		for _, f := range c.Faults {
			if f.Op == i {
				w.faults = append(w.faults, &armed{Fault: f})
			}
		}
		w.room = 0
		for _, f := range c.Full {
			if f.From <= i && i <= f.To {
				w.room = int(c.G.capacity()) + f.Room
			}
		}
		before := w.injected
		stop, err := w.step(op.Op)
		if err != nil {
			return at(err, i)
		}
		if stop {
			r.NonTrivial()
			if op.K == "reopen" {
				// a failing close releases the file
				st, err, viol := tryOpen(w.Path, w.G.capacity())
				if viol != nil {
					return at(viol, i)
				}
				if err != nil {
					return at(violate("not-released", "closing failed because of the device; opening the store afterwards: %v", err), i)
				}
				err = w.judge(st, "a failed close")
				st.Close()
				return at(err, i)
			}
			return at(w.afterCrash("a failed "+op.K, c.Open), i)
		}
		if w.injected > before || op.V {
			if op.V {
				if err := w.verify(); err != nil {
					return at(err, i)
				}
			}
			if w.injected > 0 || r.labels["snapshot-without-space"] > 0 {
				r.NonTrivial()
			}
		}
	}
	if len(c.Ops)%2 == 0 {
		if err := w.verify(); err != nil {
			return err
		}
	}
	return w.afterCrash("a crash at the end", c.Open)
}

// createFaulty creates a store on a failing device.
func createFaulty(r *Run, c C18Case) error {
	dir := filepath.Join(r.Dir, "create")
	if err := os.Mkdir(dir, 0755); err != nil {
		harnessFail(err)
	}
	path := filepath.Join(dir, "s.lusf")
	w := &faulty{World: &World{R: r, Path: path, G: c.G, Model: map[uint64]*Obj{}}, faults: []*armed{{Fault: *c.Create}}}
	var st *storage.Storage
	var e error
	failed, pan := w.guarded(func() { st, e = storage.CreateCannylsStorage(path, c.G.capacity(), c.G.ratio()) })
	if pan != "" {
		return violate("create-panic", "creating on a failing device panicked: %s", pan)
	}
	if e != nil {
		if !failed {
			return violate("create-failed", "creating: %v", e)
		}
		r.Label("create-error-reported")
		// what is left must not be in the way: it is either gone, or a complete empty store
		if _, err := os.Stat(path); err != nil {
			if st, e = storage.CreateCannylsStorage(path, c.G.capacity(), c.G.ratio()); e != nil {
				return violate("create-not-released", "creating failed because of the device; trying again: %v", e)
			}
		} else if st, e = openBounded(path, c.G.capacity()); e != nil {
			return violate("create-left-file", "creating failed because of the device, and left a file which can not be used: %v", e)
		}
	}
	w.St = st
	defer st.Close()
	if err := w.checkAll(); err != nil {
		return err
	}
	return w.checkSpace()
}

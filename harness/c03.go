package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/thesues/cannyls-go/nvm"
	"pgregory.net/rapid"
)

// C03Case is a history with crash points: after every device write whose number is picked by Pick/Every the
// file as it is then is opened as a store of its own.
type C03Case struct {
	G     Geom
	Ops   []Op
	Cont  []Op // what the recovered store is used for
	Pick  uint64
	Every int      // roughly one of Every device writes is a crash point
	Conc  *C03Conc `json:",omitempty"` // instead of all the others
	Auto  *C03Auto `json:",omitempty"` // instead of all the others
}

// ver is one incarnation of an object: one journal record and what its blocks hold.
type ver struct {
	obj      *Obj
	embed    bool
	contents [][]byte // an offset write in place adds one
	start    uint64   // blocks, of data objects
	end      uint64
}

// crashTracker knows every state the journal may have recorded since the last completed sync.
type crashTracker struct {
	w      *World
	cur    map[uint64]*ver
	states []map[uint64]*ver
	images []crashImage
	writes int
	pick   func(n int) bool
	data   [][2]uint64 // block ranges written by the running operation
	unsync bool        // a device write happened after the last device sync
}

type crashImage struct {
	n   int
	raw []byte
}

func newTracker(w *World, pick func(int) bool) *crashTracker {
	t := &crashTracker{w: w, cur: map[uint64]*ver{}, pick: pick}
	t.barrier()
	return t
}

func (t *crashTracker) hook(io *nvm.VerifIO) error {
	if io.Path != t.w.Path || !io.After || io.Err != nil {
		return nil
	}
	switch io.Op {
	case "write":
		t.unsync = true
		base := int64(1+t.w.G.J) * blk
		if io.Off >= base {
			s := uint64(io.Off-base) / blk
			t.data = append(t.data, [2]uint64{s, s + uint64(io.N+blk-1)/blk})
		}
		t.writes++
		if t.pick != nil && t.pick(t.writes) {
			raw, err := os.ReadFile(t.w.Path)
			if err != nil {
				harnessFail(err)
			}
			if k := len(t.images); k == 0 || !bytes.Equal(t.images[k-1].raw, raw) {
				t.images = append(t.images, crashImage{t.writes, raw})
			}
		}
	case "sync":
		t.unsync = false
	}
	return nil
}

// barrier forgets all states but the current one: it is synced.
func (t *crashTracker) barrier() { t.states = []map[uint64]*ver{t.cur} }

// update brings the states up to date after an operation.
func (t *crashTracker) update(op Op) error {
	w := t.w
	next := map[uint64]*ver{}
	own := map[*ver]bool{}
	changed := len(next) != len(t.cur)
	for id, o := range w.Model {
		v := t.cur[id]
		switch {
		case v != nil && v.obj == o:
			next[id] = v
		case v != nil && op.K == "pwo" && op.ID == id && !v.embed && !o.Embed:
			v.contents = append(v.contents, o.Data)
			v.obj = o
			next[id] = v
			own[v] = true
			changed = true
		default:
			v = &ver{obj: o, embed: o.Embed, contents: [][]byte{o.Data}}
			if !o.Embed {
				p, err := w.St.GetRecord(lid(id))
				if err != nil {
					return violate("record", "GetRecord of id %d: %v", id, err)
				}
				v.start, v.end = p.Start.AsU64(), p.End()
			}
			next[id] = v
			own[v] = true
			changed = true
		}
	}
	changed = changed || len(next) != len(t.cur)
	for _, d := range t.data {
		for id, v := range next {
			if !v.embed && !own[v] && v.start < d[1] && d[0] < v.end {
				return violate("overwrites-live", "%+v wrote blocks [%d,%d), which hold id %d (blocks [%d,%d))", op, d[0], d[1], id, v.start, v.end)
			}
		}
	}
	t.data = nil
	if changed {
		if op.K == "put" && t.cur[op.ID] != nil {
			// replacing an object in a full store deletes it first
			mid := map[uint64]*ver{}
			for id, v := range t.cur {
				if id != op.ID {
					mid[id] = v
				}
			}
			if t.cur[op.ID] != next[op.ID] && twoStep(t.cur[op.ID], mid, next[op.ID], w.G.D) {
				t.states = append(t.states, mid)
			}
		}
		t.states = append(t.states, next)
	}
	t.cur = next
	return nil
}

// twoStep tells whether the new version could not be stored beside the old ones.
func twoStep(old *ver, others map[uint64]*ver, n *ver, d int) bool {
	if n == nil {
		return true
	}
	if n.embed {
		return false
	}
	var used [][2]uint64
	for _, v := range others {
		if !v.embed {
			used = append(used, [2]uint64{v.start, v.end})
		}
	}
	if !old.embed {
		used = append(used, [2]uint64{old.start, old.end})
	}
	sort.Slice(used, func(i, j int) bool { return used[i][0] < used[j][0] })
	var pos uint64
	for _, u := range append(used, [2]uint64{uint64(d), uint64(d)}) {
		if u[0] > pos && u[0]-pos >= n.end-n.start {
			return false
		}
		if u[1] > pos {
			pos = u[1]
		}
	}
	return true
}

// got is what a recovered store holds.
type got struct {
	data []byte
	err  error
	p    [2]uint64
	emb  bool
}

// matches reports whether a recovered store is in the given state.
func matches(rec map[uint64]got, state map[uint64]*ver) string {
	for id := range rec {
		if state[id] == nil {
			return fmt.Sprintf("has id %d", id)
		}
	}
	for id, v := range state {
		g, ok := rec[id]
		if !ok {
			return fmt.Sprintf("has no id %d", id)
		}
		if g.emb != v.embed {
			return fmt.Sprintf("id %d embedded %v", id, g.emb)
		}
		if !v.embed && (g.p[0] != v.start || g.p[1] != v.end) {
			return fmt.Sprintf("id %d is in blocks %v, not [%d,%d)", id, g.p, v.start, v.end)
		}
		if g.err != nil {
			return fmt.Sprintf("id %d can not be read: %v", id, g.err)
		}
		ok = false
		for _, c := range v.contents {
			ok = ok || bytes.Equal(c, g.data)
		}
		if !ok {
			return fmt.Sprintf("id %d has other contents (%s)", id, diffBytes(g.data, v.contents[len(v.contents)-1]))
		}
	}
	return ""
}

// recover_ opens a crash image, checks it against the allowed states and uses it.
func recoverImage(r *Run, img crashImage, g Geom, states []map[uint64]*ver, cont []Op, depth int, pick func(int) bool, what string) error {
	path := filepath.Join(r.Dir, fmt.Sprintf("crash%d-%d.lusf", depth, img.n))
	if err := os.WriteFile(path, img.raw, 0644); err != nil {
		harnessFail(err)
	}
	defer os.Remove(path)
	old := hookFn
	setHook(nil)
	defer setHook(old)
	fail := func(class, format string, a ...any) error {
		return violate(class, "stopped after device write %d (%s): %s", img.n, what, fmt.Sprintf(format, a...))
	}
	st, err := openBounded(path, g.capacity())
	if err != nil {
		return fail("crash-open", "%v", err)
	}
	closed := false
	defer func() {
		if !closed {
			st.Close()
		}
	}()
	rec := map[uint64]got{}
	for _, id := range st.List() {
		x := got{}
		x.data, x.err = st.Get(id)
		if p, err := st.GetRecord(id); err == nil {
			x.p = [2]uint64{p.Start.AsU64(), p.End()}
		} else {
			x.emb = true
		}
		rec[id.U64()] = x
	}
	why := ""
	ok := false
	for i := len(states) - 1; i >= 0 && !ok; i-- {
		m := matches(rec, states[i])
		if m == "" {
			ok = true
			if i > 0 && i < len(states)-1 {
				r.Label("recovered-middle-state")
			}
		}
		if why == "" || len(states) <= 6 {
			why += fmt.Sprintf("\n  state %d of %d: %s", i+1, len(states), m)
		}
	}
	if !ok {
		return fail("crash-state", "the store opens with %d objects, which is none of the %d states since the last sync:%s", len(rec), len(states), why)
	}
	w := &World{R: r, Path: path, G: g, St: st, Model: map[uint64]*Obj{}, Ring: int64(g.J-1) * blk, Autogc: true}
	for id, x := range rec {
		w.Model[id] = &Obj{Data: x.data, Embed: x.emb, Blocks: int(x.p[1] - x.p[0])}
	}
	used := func() error {
		if err := w.checkSpace(); err != nil {
			return err
		}
		var tr *crashTracker
		if depth > 0 && pick != nil {
			tr = newTracker(w, pick)
			if err := tr.update(Op{K: "open"}); err != nil {
				return err
			}
			tr.barrier()
			setHook(tr.hook)
			defer setHook(nil)
		}
		for i, op := range cont {
			if err := trackedStep(r, tr, w, op, i, nil, depth-1); err != nil {
				return err
			}
		}
		setHook(nil)
		w.St.JournalGC()
		if err := w.checkAll(); err != nil {
			return err
		}
		if err := w.Reopen(); err != nil {
			return err
		}
		if err := w.checkAll(); err != nil {
			return err
		}
		return w.checkSpace()
	}
	if err := used(); err != nil {
		if v, ok := err.(*Violation); ok {
			return fail("after-crash-"+v.Class, "using the recovered store: %s", v.Msg)
		}
		return err
	}
	closed = true
	w.Close()
	r.Count("crash_points_recovered", 1)
	if len(states) > 1 {
		r.Count("crash_points_with_unsynced_changes", 1)
	}
	return nil
}

// trackedStep executes an operation and checks the crash images made meanwhile.
func trackedStep(r *Run, t *crashTracker, w *World, op Op, i int, cont []Op, depth int) error {
	if t == nil {
		return w.Step(op)
	}
	what := fmt.Sprintf("operation %d %+v", i, op)
	if err := w.Step(op); err != nil {
		return err
	}
	if err := t.update(op); err != nil {
		return err
	}
	images := t.images
	t.images = nil
	for _, img := range images {
		if err := recoverImage(r, img, w.G, t.states, cont, depth, t.pick, what); err != nil {
			return err
		}
	}
	if op.K == "sync" || op.K == "reopen" {
		if t.unsync {
			return violate("sync-incomplete", "%s returned, but the device was not synced after the last device write", op.K)
		}
		t.barrier()
		raw, err := os.ReadFile(w.Path)
		if err != nil {
			harnessFail(err)
		}
		if t.pick != nil && t.pick(t.writes+1000003) {
			return recoverImage(r, crashImage{t.writes, raw}, w.G, t.states, cont, 0, nil, what+", finished")
		}
	}
	return nil
}

var c03Kinds = expand([]weighted{{"put", 12}, {"embed", 10}, {"del", 6}, {"delr", 2}, {"pwo", 4}, {"sync", 5}, {"flush", 3}, {"side", 6}, {"gc", 3}, {"rerec", 2},
	{"reopen", 1}, {"autogc", 1}})

func init() {
	register(&PBT[C03Case]{
		Id: "C03",
		RuleText: "rapid draws a small store (2-13 journal sectors, 1-24 data blocks) and up to 70 operations; after device writes picked by the case (about 10 per case; all of them in small cases and in the thorough tier) the file as it is " +
			"at that moment is opened as a store of its own. It must open in bounded time and hold exactly the state after some prefix of the operations, not older than the last completed sync; " +
			"space accounting must be exact; then it is used further (with crash points of its own), collected, reopened and compared. Every sync must end with a device sync after the last device write. " +
			"In one case in 6 two to four goroutines with ids of their own use a roomy store at once; the file as it is between two device writes must open with every goroutine's objects as they were after some of its operations, at least those that had returned before a completed sync began, and no operation without those that had returned before it was called. " +
			"In one case in 25 a history of up to 17000 operations runs without any sync: the file then holds a state at most 10000 operations old, and the newest one after two background jobs in a row. " +
			"Non-trivial: a crash point was recovered while unsynced changes existed.",
		Assume: []string{"device writes persist in the order they are issued and each is atomic (a process crash, not a power failure that tears or reorders writes)"},
		Gen: func(t *rapid.T, tier string) C03Case {
			if rare(t, 6) {
				return C03Case{G: Geom{J: 2, D: 1}, Conc: genC03Conc(t)}
			}
			if rare(t, 25) {
				return C03Case{G: Geom{J: 2, D: 1}, Auto: genC03Auto(t)}
			}
			if rare(t, 80) {
				b := genBulk(t, []string{"gc", "side", "sync", "flush", "embed"}, 8, 300, 40, 2500)
				ops := 0
				for _, op := range b.Ops {
					ops += max(op.N, 1)
				}
				return C03Case{G: b.G, Ops: b.Ops, Pick: rapid.Uint64Range(0, 1<<20).Draw(t, "pick"), Every: 3 + ops/100}
			}
			c := C03Case{G: Geom{J: rapid.IntRange(2, 13).Draw(t, "J"), D: rapid.IntRange(1, 24).Draw(t, "D")}}
			ids := genIDs(t)
			mb := 5
			if mb > c.G.D {
				mb = c.G.D
			}
			n := 70
			if tier == "thorough" {
				n = 160
			}
			gen := rapid.Custom(func(t *rapid.T) Op { return genOp(t, c03Kinds, ids, c.G, mb) })
			lo := 1
			if rapid.IntRange(0, 2).Draw(t, "long") > 0 {
				lo = n / 2
			}
			c.Ops = rapid.SliceOfN(gen, lo, n).Draw(t, "ops")
			c.Ops = genSpin(t, ids, c.G, c.Ops)
			c.Cont = rapid.SliceOfN(gen, 0, 12).Draw(t, "cont")
			c.Pick = rapid.Uint64Range(0, 1<<20).Draw(t, "pick")
			c.Every = len(c.Ops)*15/10/10 + 1
			if tier == "thorough" {
				c.Every = 1 + len(c.Ops)/60
			}
			return c
		},
		Exec: func(r *Run, c C03Case) error {
			if c.Auto != nil {
				return execC03Auto(r, *c.Auto)
			}
			if c.Conc != nil {
				return execC03Conc(r, *c.Conc)
			}
			w, err := newWorld(r, c.G, "s.lusf")
			if err != nil {
				return err
			}
			pick := func(n int) bool {
				return c.Every <= 1 || len(c.Ops) <= 14 || mix(c.Pick, uint64(n))%uint64(c.Every) == 0
			}
			t := newTracker(w, pick)
			setHook(t.hook)
			for i, op := range c.Ops {
				if i == 0 && op.K == "bulk" { // only turns the ring
					setHook(nil)
					if err := w.Step(op); err != nil {
						return at(err, i)
					}
					if err := w.Step(Op{K: "sync"}); err != nil {
						return err
					}
					if err := t.update(Op{K: "open"}); err != nil {
						return err
					}
					t.barrier()
					setHook(t.hook)
					continue
				}
				steps := []Op{op}
				if op.K == "bulk" {
					steps = expandBulk(op)
					r.Label("bulk")
				}
				for _, op := range steps {
					if err := trackedStep(r, t, w, op, i, c.Cont, 1); err != nil {
						return at(err, i)
					}
				}
			}
			if r.cov["crash_points_with_unsynced_changes"] > 0 {
				r.NonTrivial()
			}
			r.Count("operations", int64(len(c.Ops)))
			r.Count("device_writes", int64(t.writes))
			setHook(nil)
			if err := w.checkAll(); err != nil {
				return err
			}
			w.Close()
			return nil
		},
		Quick:    Budget{Cases: 7500, Seconds: 40},
		Thorough: Budget{Cases: 60000, Seconds: 600},
	})
}

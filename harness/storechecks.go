package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime/debug"
	"sort"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage/journal"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C02

var c02Kinds = expand([]weighted{{"put", 10}, {"embed", 8}, {"del", 5}, {"pwo", 3}, {"delr", 2}, {"sync", 1}, {"flush", 1}, {"side", 4}, {"gc", 2},
	{"autogc", 1}, {"rerec", 2}, {"reopen", 6}, {"snapc", 1}, {"snapd", 1}, {"get", 1}})

// reopenCompare reopens the store and compares everything observable with the model.
func (w *World) reopenCompare(q Op) error {
	if err := w.Reopen(); err != nil {
		return err
	}
	if err := w.checkAll(); err != nil {
		return err
	}
	if err := w.checkQueries(q); err != nil {
		return err
	}
	return w.checkSpace()
}

func init() {
	register(&PBT[OpsCase]{
		Id: "C02",
		RuleText: "rapid draws a geometry, ids and up to 100 operations with frequent reopens (also with full journals, full data regions, automatic GC off, snapshots; one case in 60 has up to 12000 objects and tens of thousands of journal records, one in 50 has a sparse store of up to 2 TB); at every reopen the usage before and after, " +
			"the id list, all bytes and sizes, the block map and the range queries are compared with the model. Two further reopens end every case. " +
			"Non-trivial: at least one reopen after an overwrite or delete, with at least one object present.",
		Gen: func(t *rapid.T, tier string) OpsCase {
			n := 100
			if tier == "thorough" {
				n = 300
			}
			if rare(t, 60) {
				return genBulk(t, c02Kinds, 30, 1500, 12000, 12000)
			}
			if rare(t, 50) {
				return genFar(t, c02Kinds, 50)
			}
			return genOps(t, c02Kinds, 24, 60, n)
		},
		Exec: func(r *Run, c OpsCase) error {
			w, err := newWorld(r, c.G, "s.lusf")
			if err != nil {
				return err
			}
			changed, good := false, false
			for i, op := range c.Ops {
				if op.K == "reopen" {
					if err = w.reopenCompare(Op{ID: uint64(i), End: uint64(i + 3), N: 4}); err == nil && changed && len(w.Model) > 0 {
						good = true
					}
				} else {
					err = w.Step(op)
				}
				if err != nil {
					return at(err, i)
				}
				changed = changed || r.labels["overwrite"] > 0 || r.labels["delete"] > 0
			}
			for i := 0; i < 2; i++ {
				if err := w.reopenCompare(Op{ID: 1, End: math.MaxUint64, N: 100}); err != nil {
					return at(err, len(c.Ops)+i)
				}
			}
			if good || changed && len(w.Model) > 0 {
				r.NonTrivial()
			}
			r.Count("operations", int64(len(c.Ops)))
			w.Close()
			return nil
		},
		Quick:    Budget{Cases: 7500, Seconds: 40},
		Thorough: Budget{Cases: 60000, Seconds: 600},
	})
}

func at(err error, i int) error {
	if v, ok := err.(*Violation); ok {
		v.Msg += " [at operation " + itoa(i) + "]"
	}
	return err
}

// ---------------------------------------------------------------- C04

var c04Kinds = expand([]weighted{{"put", 14}, {"embed", 6}, {"del", 8}, {"pwo", 5}, {"delr", 2}, {"probe", 4}, {"side", 2}, {"gc", 1}, {"reopen", 2},
	{"rerec", 1}, {"sync", 1}})

// probe stores an object of exactly the reported maximum size and tries one that is bigger.
func (w *World) probe(seed int) error {
	id := uint64(1 << 40)
	for w.Model[id] != nil {
		id++
	}
	u := w.St.Usage()
	max := int(u.MaxSegmentSize)
	big := max + 1
	if max == 0 {
		big = 0
	}
	if big <= lump.LUMP_MAX_SIZE {
		if _, err := w.St.Put(lid(id), mkLump(payload(seed, big), 0)); !isStorageFull(err) {
			if err == nil {
				return violate("max-segment", "an object of %d bytes was stored although the reported maximum is %d", big, max)
			}
			if !isFull(err) {
				return violate("wrong-error", "Put of %d bytes with a maximum of %d: %v", big, max, err)
			}
		}
		if err := w.checkOne(id); err != nil {
			return err
		}
	}
	if max == 0 {
		w.R.Label("probe-full")
		return nil
	}
	data := payload(seed, max)
	if _, err := w.St.Put(lid(id), mkLump(data, 0)); err != nil {
		if isStorageFull(err) {
			return violate("max-segment", "an object of the reported maximum of %d bytes does not fit: %v", max, err)
		}
		if !isJournalFull(err) {
			return violate("put-failed", "Put of the maximum of %d bytes: %v", max, err)
		}
		w.noteFull(err)
		return w.checkOne(id)
	}
	w.appended(20)
	w.Model[id] = dataObj(data)
	w.R.Label("probe-stored")
	if err := w.checkOne(id); err != nil {
		return err
	}
	if err := w.checkSpace(); err != nil {
		return err
	}
	if seed%3 == 0 {
		return nil // keep it: the store stays (nearly) full
	}
	return w.Step(Op{K: "del", ID: id})
}

func init() {
	register(&PBT[OpsCase]{
		Id: "C04",
		RuleText: "rapid draws a geometry with 1-80 data blocks (one case in 50: around 65535 or 131070, so that the limits of object sizes and block runs matter; one in 50: up to 2 TB in a sparse file) and up to 80 operations biased to overwriting, deleting, failing and refilling; after every operation the block map of all objects is checked for overlap and " +
			"bounds, and free space, file count, maximum segment size (and less often journal usage and the allocation picture) are compared with exact arithmetic over the model; probes store an object of exactly the reported maximum and one byte more; a data-full answer " +
			"must be justified by the longest free run. Non-trivial: at least one block was freed and reused or the store was full.",
		Gen: func(t *rapid.T, tier string) OpsCase {
			n := 80
			if tier == "thorough" {
				n = 200
			}
			if rare(t, 50) {
				return genHuge(t, c04Kinds)
			}
			if rare(t, 50) {
				return genFar(t, c04Kinds, 30)
			}
			return genOps(t, c04Kinds, 30, 80, n)
		},
		Exec: func(r *Run, c OpsCase) error {
			w, err := newWorld(r, c.G, "s.lusf")
			if err != nil {
				return err
			}
			w.StrictFull = true
			if c.G.D > 10000 && c.G.Place == nil {
				r.Label("huge-objects")
				defer debug.FreeOSMemory()
			}
			if err := w.checkSpace(); err != nil {
				return err
			}
			for i, op := range c.Ops {
				if op.K == "probe" {
					err = w.probe(i)
				} else {
					err = w.Step(op)
				}
				if err == nil {
					err = w.checkSpace()
				}
				if err == nil && (i%4 == 3 || i == len(c.Ops)-1) {
					err = w.checkUsageDetail()
				}
				if err != nil {
					return at(err, i)
				}
			}
			if err := w.checkAll(); err != nil {
				return err
			}
			if err := w.Reopen(); err != nil {
				return err
			}
			if err := w.checkSpace(); err != nil {
				return err
			}
			if r.labels["storage-full"] > 0 || r.labels["delete"] > 0 || r.labels["overwrite"] > 0 {
				r.NonTrivial()
			}
			r.Count("operations", int64(len(c.Ops)))
			// delete everything: all the space must be back
			for _, id := range w.sortedIDs() {
				if _, _, err := w.St.Delete(lid(id)); err != nil {
					if isJournalFull(err) {
						w.Close()
						return nil
					}
					return violate("delete-failed", "Delete of %d: %v", id, err)
				}
				delete(w.Model, id)
			}
			if u := w.St.Usage(); u.DataFreeBytes != u.DataCapacity {
				return violate("leak", "everything is deleted, but only %d of %d bytes are free", u.DataFreeBytes, u.DataCapacity)
			}
			if err := w.checkSpace(); err != nil {
				return err
			}
			w.Close()
			return nil
		},
		Quick:    Budget{Cases: 7500, Seconds: 40},
		Thorough: Budget{Cases: 60000, Seconds: 600},
	})
}

// ---------------------------------------------------------------- C06

// C06Case is a workload with explicit journal collection.
type C06Case struct {
	G     Geom
	Roomy bool // the live records fit in a small fraction of the journal
	Side  bool `json:",omitempty"` // only background jobs collect: some of them run after every operation
	Ops   []Op
}

var c06Kinds = expand([]weighted{{"put", 10}, {"embed", 12}, {"del", 8}, {"delr", 2}, {"pwo", 2}, {"gc", 3}, {"side", 8}, {"rerec", 3}, {"same", 4}, {"sync", 1},
	{"flush", 2}, {"reopen", 2}, {"check", 1}, {"jsnap", 1}})
var c06TightKinds = append(append([]string(nil), c06Kinds...), "autogc", "autogc", "autogc")

// liveRecordBytes is the size of the journal records of all objects.
func (w *World) liveRecordBytes() int {
	n := 0
	for _, o := range w.Model {
		if o.Embed {
			n += 15 + len(o.Data)
		} else {
			n += 20
		}
	}
	return n
}

// checkCollected checks that a full collection leaves exactly the live records.
func (w *World) checkCollected() error {
	js := w.St.JournalSnapshot()
	seen := map[uint64]bool{}
	for _, e := range js.Entries {
		var id uint64
		switch rec := e.Record.(type) {
		case journal.PutRecord:
			id = rec.LumpID.U64()
			p, err := w.St.GetRecord(lid(id))
			if err != nil || *p != rec.DataPortion {
				return violate("gc-incomplete", "after a full collection the journal has %+v, which is not the record of a stored object (%v, %v)", e, p, err)
			}
		case journal.EmbedRecord:
			id = rec.LumpID.U64()
			o := w.Model[id]
			if o == nil || !o.Embed || !bytes.Equal(o.Data, rec.Data) {
				return violate("gc-incomplete", "after a full collection the journal has an embedded record of id %d, which is not stored like that", id)
			}
		default:
			return violate("gc-incomplete", "after a full collection the journal has %+v", e)
		}
		if seen[id] {
			return violate("gc-incomplete", "after a full collection the journal has two records of id %d", id)
		}
		seen[id] = true
	}
	if len(seen) != len(w.Model) {
		return violate("gc-lost-record", "after a full collection the journal has records of %d of %d objects", len(seen), len(w.Model))
	}
	u := w.St.Usage()
	// the only other bytes are what is skipped at the end of the ring
	slack := 0
	if js.Tail < js.UnreleasedHead {
		slack = 1024
		for _, o := range w.Model {
			if o.Embed && len(o.Data)+1024 > slack {
				slack = len(o.Data) + 1024
			}
		}
	}
	if int(u.JournalUsageBytes) > w.liveRecordBytes()+slack {
		return violate("gc-incomplete", "after a full collection %d journal bytes are in use, the live records have %d bytes", u.JournalUsageBytes, w.liveRecordBytes())
	}
	w.R.Label("full-gc-complete")
	return nil
}

func init() {
	register(&PBT[C06Case]{
		Id: "C06",
		RuleText: "rapid draws histories of several laps of a small journal with automatic, background and full collection at arbitrary points (also delete-and-store-again on the same blocks and duplicate records); the model is compared " +
			"after every collection and after reopens. One case in 40 has up to 11000 objects and tens of thousands of records. 'Roomy' cases keep the live records below an eighth of the ring and leave automatic GC on: there (and, in a quarter of them, with automatic GC off and ten background jobs after every operation) no journal-full answer is accepted and a full collection must leave exactly one record per object. " +
			"Non-trivial: the journal wrapped around and a collection ran.",
		Gen: func(t *rapid.T, tier string) C06Case {
			c := C06Case{Roomy: rapid.IntRange(0, 3).Draw(t, "roomy") > 0}
			if rare(t, 40) {
				ids := rapid.IntRange(100, 1500).Draw(t, "ids")
				if rapid.IntRange(0, 2).Draw(t, "many") == 2 {
					ids = rapid.IntRange(1500, 11000).Draw(t, "ids")
				}
				// objects of up to 9 bytes, embedded (24 bytes of journal each), and 3 others of up to 500 bytes
				minJ := 1 + (ids*24+3*515)*8/blk + 1
				maxJ := minJ + 800
				if !c.Roomy {
					minJ, maxJ = minJ/8+2, minJ/2+4
				}
				b := genBulk(t, []string{"gc", "gc", "side", "side", "check", "reopen", "sync", "flush", "rerec", "embed"}, minJ, maxJ, ids, 30000)
				c.G, c.Ops = b.G, b.Ops
				return c
			}
			n := 400
			if tier == "thorough" {
				n = 1500
			}
			c.G = genGeom(t, 14, 24)
			ids := genIDs(t)
			kinds := c06TightKinds
			maxE := (c.G.J - 1) * blk / 2
			if c.Roomy {
				kinds = c06Kinds
				if c.G.J < 9 {
					c.G.J += 7
				}
				if len(ids) > 6 {
					ids = ids[:6]
				}
				// the ring has at least 8 sectors and (records of all ids) * 8 <= ring
				ring := (c.G.J - 1) * blk
				maxE = ring/8/len(ids) - 15
				if maxE < 5 {
					maxE = 5
				}
				c.Side = rapid.IntRange(0, 3).Draw(t, "side") == 3
			}
			gen := rapid.Custom(func(t *rapid.T) Op {
				k := rapid.SampledFrom(kinds).Draw(t, "kind")
				if k == "same" {
					return Op{K: "same", ID: rapid.SampledFrom(ids).Draw(t, "id"), Seed: genPayloadSeed(t), Size: genSize(t, 3)}
				}
				op := genOp(t, []string{k}, ids, c.G, 3)
				if k == "embed" && op.Size > maxE {
					op.Size %= maxE + 1
				}
				if k == "side" && rapid.IntRange(0, 3).Draw(t, "big") == 0 {
					op.N = 64
				}
				return op
			})
			lo := 1
			if rapid.IntRange(0, 2).Draw(t, "long") > 0 {
				lo = n / 2
			}
			c.Ops = rapid.SliceOfN(gen, lo, n).Draw(t, "ops")
			return c
		},
		Exec:     execC06,
		Quick:    Budget{Cases: 4500, Seconds: 40},
		Thorough: Budget{Cases: 40000, Seconds: 600},
	})
}

func execC06(r *Run, c C06Case) error {
	w, err := newWorld(r, c.G, "s.lusf")
	if err != nil {
		return err
	}
	gcs := 0
	if c.Side {
		w.Autogc = false
		w.St.SetAutomaticGcMode(false)
		r.Label("only-background-jobs-collect")
	}
	// the background jobs between two operations
	background := func(op Op) {
		for k := 0; c.Side && k < 10; k++ {
			w.St.RunSideJobOnce(1 + op.N%4)
		}
	}
	for i, op := range c.Ops {
		switch op.K {
		case "same": // store, delete and store again: most likely on the same blocks
			for _, k := range []string{"put", "del", "put"} {
				o := op
				o.K = k
				if err = w.Step(o); err != nil {
					return at(err, i)
				}
				background(op)
			}
		case "gc":
			if c.G.J > 300 {
				js := w.St.JournalSnapshot()
				if len(js.Entries) > 8192 {
					r.Label("gc-of-over-8192-records")
					if js.Tail < js.Head {
						r.Label("gc-of-over-8192-records-wrapped")
					}
				}
			}
			if err = w.Step(op); err == nil {
				gcs++
				if c.Roomy {
					err = w.checkCollected()
				}
				if err == nil {
					err = w.checkAll()
				}
			}
		case "side":
			gcs++
			if err = w.Step(op); err == nil {
				err = w.checkList()
			}
		case "reopen":
			if err = w.Reopen(); err == nil {
				err = w.checkAll()
			}
		default:
			err = w.Step(op)
		}
		if err != nil {
			return at(err, i)
		}
		background(op)
		if c.Roomy && w.JFullSeen {
			return at(violate("journal-full", "journal full although the live records have %d bytes and the ring %d", w.liveRecordBytes(), w.Ring), i)
		}
	}
	if err := w.checkAll(); err != nil {
		return err
	}
	if err := w.checkSpace(); err != nil {
		return err
	}
	if err := w.Reopen(); err != nil {
		return err
	}
	if err := w.checkAll(); err != nil {
		return err
	}
	w.St.JournalGC()
	if c.Roomy {
		if err := w.checkCollected(); err != nil {
			return err
		}
	}
	if err := w.Reopen(); err != nil {
		return err
	}
	if err := w.checkAll(); err != nil {
		return err
	}
	if gcs > 0 && r.labels["journal-wrapped"] > 0 {
		r.NonTrivial()
	}
	if c.Roomy {
		r.Label("roomy")
	}
	r.Count("operations", int64(len(c.Ops)))
	r.Count("collections", int64(gcs))
	w.Close()
	return nil
}

// ---------------------------------------------------------------- C07

var c07Kinds = expand([]weighted{{"put", 14}, {"embed", 8}, {"pwo", 6}, {"del", 3}, {"delr", 1}, {"side", 2}, {"gc", 1}, {"reopen", 3}, {"bigembed", 1},
	{"nil", 1}, {"oversize", 1}, {"gwo", 2}, {"get", 1}, {"autogc", 1}, {"sync", 1}, {"closed", 1}})

// badOp executes an operation that must be refused.
func (w *World) badOp(op Op) error {
	st := w.St
	id := lid(op.ID)
	var err error
	what := op.K
	switch op.K {
	case "bigembed":
		_, err = st.PutEmbed(id, payload(op.Seed, 0x10000+op.Size))
	case "nil":
		if op.Seed%2 == 0 {
			_, err = st.Put(id, lump.LumpData{})
		} else {
			err = st.PutWithOffset(id, lump.LumpData{}, op.Off, op.Len)
		}
	case "oversize":
		switch op.Seed % 4 {
		case 0:
			ab := block.NewAlignedBytes(lump.LUMP_MAX_SIZE+1+op.Seed, block.Min())
			_, err = st.Put(id, lump.LumpData{Inner: ab})
		case 1:
			if w.Model[op.ID] != nil {
				return nil
			}
			err = st.PutWithOffset(id, mkLump(payload(1, 3), 0), op.Off, lump.LUMP_MAX_SIZE+1+uint32(op.Size))
		case 2:
			err = st.PutWithOffset(id, mkLump(payload(1, 700), 0), math.MaxUint32-uint32(op.Size), op.Len)
		default:
			err = st.PutWithOffset(id, mkLump(payload(1, 700), 0), lump.LUMP_MAX_SIZE-699, op.Len)
		}
	case "closed":
		if err := w.closedAnswers(op); err != nil {
			return err
		}
		return w.reopenCompare(Op{ID: op.ID, End: op.ID + 5, N: 3})
	}
	w.R.Label("refused-" + what)
	if err == nil {
		return violate("invalid-accepted", "%+v succeeded", op)
	}
	if !isInvalid(err) && !isFull(err) {
		return violate("wrong-error", "%+v: %v", op, err)
	}
	return nil
}

// closedAnswers closes the store and tries everything on it.
func (w *World) closedAnswers(op Op) error {
	st := w.St
	id := lid(op.ID)
	st.Close()
	st.Close()
	_, e1 := st.Put(id, mkLump(payload(1, 100), 0))
	_, e2 := st.PutEmbed(id, []byte("x"))
	_, _, e3 := st.Delete(id)
	e4 := st.DeleteRange(lid(0), lid(math.MaxUint64), true)
	_, e5 := st.Get(id)
	_, e6 := st.GetSize(id)
	_, e7 := st.GetWithOffset(id, 0, 1)
	e8 := st.PutWithOffset(id, mkLump(payload(1, 100), 0), 0, 10)
	_, e9 := st.GetSizeOnDisk(id)
	_, e10 := st.First(lid(0))
	_, e11 := st.GetRecord(id)
	e12 := st.WriteRecord(id, portion.NewDataPortion(0, 1))
	e13 := st.CreateSnapshot()
	e14 := st.DeleteSnapshot()
	_, e15 := st.GetSnapshotReader()
	for i, e := range []error{e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15} {
		if e != internalerror.StorageClosed {
			return violate("closed-store", "operation %d on a closed store answers %v", i+1, e)
		}
	}
	if l := st.List(); len(l) != 0 {
		return violate("closed-store", "List of a closed store: %v", l)
	}
	if l := st.ListRange(lid(0), lid(math.MaxUint64), 10); len(l) != 0 {
		return violate("closed-store", "ListRange of a closed store: %v", l)
	}
	if _, ok := st.MinId(); ok {
		return violate("closed-store", "MinId of a closed store")
	}
	if _, ok := st.MaxId(); ok {
		return violate("closed-store", "MaxId of a closed store")
	}
	if _, ok := st.GenerateEmptyId(); ok {
		return violate("closed-store", "GenerateEmptyId of a closed store")
	}
	if s := st.JournalSnapshot(); len(s.Entries) != 0 {
		return violate("closed-store", "JournalSnapshot of a closed store: %v", s)
	}
	if s := st.GetAllocationStatus(); len(s) != 0 {
		return violate("closed-store", "GetAllocationStatus of a closed store: %v", s)
	}
	st.JournalGC()
	st.RunSideJobOnce(3)
	st.Sync()
	st.Flush()
	st.Usage()
	st.Header()
	st.SetAutomaticGcMode(true)
	st.Close()
	w.R.Label("closed")
	return nil
}

func init() {
	register(&PBT[OpsCase]{
		Id: "C07",
		RuleText: "rapid draws very small stores (2-5 journal sectors, 1-12 data blocks), so that operations fail all the time, plus operations that must be refused (nil and oversized objects, oversized embeds, offsets beyond the end, " +
			"closed stores). After every failing operation all objects, the id list and the space accounting are compared with the model, then again after a reopen; the caller's data of failed writes must be unchanged; at the end everything is deleted and the whole data area must be " +
			"writable again. Non-trivial: at least one operation failed while objects were stored.",
		Gen: func(t *rapid.T, tier string) OpsCase {
			g := Geom{J: rapid.IntRange(2, 5).Draw(t, "J"), D: rapid.IntRange(1, 12).Draw(t, "D")}
			ids := genIDs(t)
			n := 60
			if tier == "thorough" {
				n = 160
			}
			gen := rapid.Custom(func(t *rapid.T) Op {
				k := rapid.SampledFrom(c07Kinds).Draw(t, "kind")
				switch k {
				case "bigembed", "nil", "oversize", "closed":
					return Op{K: k, ID: rapid.SampledFrom(ids).Draw(t, "id"), Seed: genPayloadSeed(t), Size: rapid.IntRange(0, 600).Draw(t, "size"),
						Off: uint32(rapid.IntRange(0, 1024).Draw(t, "off")), Len: uint32(rapid.IntRange(0, 1024).Draw(t, "len"))}
				}
				op := genOp(t, []string{k}, ids, g, g.D+2)
				if k == "embed" && rapid.IntRange(0, 4).Draw(t, "fill") == 0 {
					op.Size = rapid.IntRange(0, (g.J-1)*blk).Draw(t, "fillsize")
				}
				return op
			})
			return OpsCase{G: g, Ops: genSpin(t, ids, g, rapid.SliceOfN(gen, uniform(t, 1, n/2, "min"), n).Draw(t, "ops"))}
		},
		Exec: func(r *Run, c OpsCase) error {
			w, err := newWorld(r, c.G, "s.lusf")
			if err != nil {
				return err
			}
			w.StrictFull, w.CallerData = true, true
			fails := 0
			for i, op := range c.Ops {
				sf, jf, ref := w.FullSeen, w.JFullSeen, r.labels["offset-write-refused"]
				w.FullSeen, w.JFullSeen = false, false
				delete(r.labels, "offset-write-refused")
				refused := false
				before := len(w.Model)
				switch op.K {
				case "bigembed", "nil", "oversize", "closed":
					err = w.badOp(op)
					refused = true
				case "reopen":
					err = w.reopenCompare(Op{ID: op.ID, End: op.ID + 9, N: 3})
				default:
					err = w.Step(op)
				}
				if err != nil {
					return at(err, i)
				}
				if w.FullSeen || w.JFullSeen || refused || r.labels["offset-write-refused"] > 0 {
					if before > 0 {
						fails++
					}
					if err = w.checkAll(); err == nil {
						err = w.checkSpace()
					}
					if err == nil && (i%4 == 3) {
						err = w.reopenCompare(Op{ID: 1, End: 50, N: 3})
					}
					if err != nil {
						return at(err, i)
					}
				}
				w.FullSeen, w.JFullSeen = w.FullSeen || sf, w.JFullSeen || jf
				if ref > 0 {
					r.Label("offset-write-refused")
				}
			}
			if err := w.reopenCompare(Op{ID: 1, End: 50, N: 3}); err != nil {
				return err
			}
			if fails > 0 {
				r.NonTrivial()
			}
			r.Count("operations", int64(len(c.Ops)))
			r.Count("failed_operations_checked", int64(fails))
			// make room: everything must be writable again
			w.St.SetAutomaticGcMode(true)
			for _, id := range w.sortedIDs() {
				if _, _, err := w.St.Delete(lid(id)); err != nil {
					if isJournalFull(err) {
						r.Label("delete-journal-full")
						w.Close()
						return nil
					}
					return violate("delete-failed", "Delete of %d: %v", id, err)
				}
				delete(w.Model, id)
			}
			data := payload(3, c.G.D*blk-2)
			if _, err := w.St.Put(lid(77), mkLump(data, 0)); err != nil {
				if isStorageFull(err) {
					return violate("stays-full", "everything is deleted, but %d bytes do not fit into %d blocks: %v", len(data), c.G.D, err)
				}
			} else {
				w.Model[77] = dataObj(data)
				r.Label("whole-area-rewritten")
			}
			if err := w.checkAll(); err != nil {
				return err
			}
			w.Close()
			return nil
		},
		Quick:    Budget{Cases: 7500, Seconds: 40},
		Thorough: Budget{Cases: 60000, Seconds: 600},
	})
}

// ---------------------------------------------------------------- C12

var c12Kinds = expand([]weighted{{"embed", 16}, {"put", 4}, {"del", 6}, {"delr", 5}, {"query", 16}, {"gen", 3}, {"list", 2}, {"reopen", 1}, {"gc", 1}, {"rerec", 1}})

func genWideID(t *rapid.T, near []uint64) uint64 {
	switch rapid.IntRange(0, 5).Draw(t, "idk") {
	case 0:
		return rapid.Uint64().Draw(t, "id")
	case 1, 2:
		return rapid.SampledFrom(idPool).Draw(t, "id")
	case 3:
		return uint64(rapid.IntRange(0, 20).Draw(t, "id"))
	case 4:
		return math.MaxUint64 - uint64(rapid.IntRange(0, 5).Draw(t, "id"))
	default:
		if len(near) == 0 {
			return 7
		}
		return rapid.SampledFrom(near).Draw(t, "near") + uint64(rapid.IntRange(-2, 2).Draw(t, "d"))
	}
}

func init() {
	register(&PBT[OpsCase]{
		Id: "C12",
		RuleText: "rapid draws ids over the whole 64-bit space (both ends, powers of two, clusters) and up to 120 operations; every answer of List, ListRange with limits, First, MinId, MaxId, GenerateEmptyId and the effect of DeleteRange with " +
			"arbitrary (also empty and inverted) bounds is compared with a sorted set. Generated ids are used as the next object's id half of the time. Non-trivial: at least one query ran against three or more ids.",
		Gen: func(t *rapid.T, tier string) OpsCase {
			n := 120
			if tier == "thorough" {
				n = 400
			}
			var ids []uint64
			for i, k := 0, rapid.IntRange(1, 24).Draw(t, "nids"); i < k; i++ {
				ids = append(ids, genWideID(t, ids))
			}
			g := Geom{J: 64, D: 64}
			gen := rapid.Custom(func(t *rapid.T) Op {
				k := rapid.SampledFrom(c12Kinds).Draw(t, "kind")
				op := Op{K: k, ID: rapid.SampledFrom(ids).Draw(t, "id"), Seed: genPayloadSeed(t), Size: rapid.IntRange(0, 8).Draw(t, "size")}
				switch k {
				case "delr", "query":
					op.ID, op.End = genWideID(t, ids), genWideID(t, ids)
					if op.ID > op.End && rapid.IntRange(0, 4).Draw(t, "swap") > 0 {
						op.ID, op.End = op.End, op.ID
					}
					op.N = rapid.IntRange(0, 30).Draw(t, "limit")
				case "gen":
					op.N = rapid.IntRange(0, 1).Draw(t, "use")
				}
				return op
			})
			lo := 1
			if rapid.Bool().Draw(t, "long") {
				lo = n / 3
			}
			return OpsCase{G: g, Ops: rapid.SliceOfN(gen, lo, n).Draw(t, "ops")}
		},
		Exec: func(r *Run, c OpsCase) error {
			w, err := newWorld(r, c.G, "s.lusf")
			if err != nil {
				return err
			}
			for i, op := range c.Ops {
				switch op.K {
				case "gen":
					e, ok := w.St.GenerateEmptyId()
					if !ok {
						return at(violate("query", "GenerateEmptyId found none with %d objects", len(w.Model)), i)
					}
					if w.Model[e.U64()] != nil {
						return at(violate("query", "GenerateEmptyId gave %d, which is in use", e.U64()), i)
					}
					r.Label("generated-id")
					if op.N == 1 {
						err = w.Step(Op{K: "embed", ID: e.U64(), Size: op.Size, Seed: op.Seed})
					}
				case "query":
					if len(w.Model) >= 3 {
						r.NonTrivial()
					}
					if err = w.checkQueries(op); err == nil {
						// bounds that are stored ids
						ids := w.sortedIDs()
						if len(ids) > 0 {
							k := int(op.Seed) % len(ids)
							err = w.checkQueries(Op{ID: ids[k], End: ids[len(ids)-1], N: op.N})
							if err == nil {
								err = w.checkQueries(Op{ID: ids[k] + 1, End: op.End, N: op.N})
							}
						}
					}
				case "delr":
					if err = w.Step(op); err == nil {
						err = w.checkList()
					}
				case "reopen":
					if err = w.Reopen(); err == nil {
						err = w.checkList()
					}
				default:
					err = w.Step(op)
				}
				if err != nil {
					return at(err, i)
				}
				if u := w.St.Usage(); u.FileCounts != uint64(len(w.Model)) {
					return at(violate("file-count", "Usage reports %d objects, there are %d", u.FileCounts, len(w.Model)), i)
				}
			}
			r.Count("operations", int64(len(c.Ops)))
			if err := w.checkAll(); err != nil {
				return err
			}
			w.Close()
			return nil
		},
		Quick:    Budget{Cases: 10000, Seconds: 40},
		Thorough: Budget{Cases: 80000, Seconds: 600},
	})
}

// ---------------------------------------------------------------- C13

var c13Kinds = expand([]weighted{{"pwo", 16}, {"gwo", 16}, {"put", 6}, {"embed", 3}, {"del", 2}, {"edge", 10}, {"gsz", 1}, {"reopen", 1}})

func init() {
	register(&PBT[OpsCase]{
		Id: "C13",
		RuleText: "rapid draws objects of up to 12 blocks (one case in 400 uses objects of up to 65535 blocks, the largest possible) and offset reads and writes whose ends lie within 2 bytes of block and object boundaries, also with misaligned " +
			"caller buffers and offsets near 2^32 (one case in 60 works in a sparse store of up to 2 TB); all objects are compared in full after every write, so that a byte changed anywhere else is seen. Non-trivial: an offset write straddled a block boundary or reached the object's last block, " +
			"and an offset read was compared.",
		Gen: func(t *rapid.T, tier string) OpsCase {
			if rare(t, 60) {
				return genFar(t, c13Kinds, 40)
			}
			g := Geom{J: 60, D: rapid.IntRange(12, 60).Draw(t, "D")}
			n := 50
			ids := []uint64{1, 2, 3, 4}
			mb := 12
			if rapid.IntRange(0, 399).Draw(t, "huge") == 399 {
				g.D = 66000
				mb = 65535
				n = 10
				ids = ids[:2]
			} else if tier == "thorough" {
				n = 150
			}
			gen := rapid.Custom(func(t *rapid.T) Op {
				k := rapid.SampledFrom(c13Kinds).Draw(t, "kind")
				if k == "edge" {
					// Off and Len are resolved against the object's size at run time
					return Op{K: "edge", ID: rapid.SampledFrom(ids).Draw(t, "id"), N: rapid.IntRange(0, 1).Draw(t, "write"), Off: uint32(rapid.IntRange(0, 6).Draw(t, "anchor")),
						Len: uint32(rapid.IntRange(0, 5).Draw(t, "span")), Size: rapid.IntRange(-2, 2).Draw(t, "d1"), End: uint64(rapid.IntRange(0, 4).Draw(t, "d2")), Seed: genPayloadSeed(t), Mis: genMis(t)}
				}
				op := genOp(t, []string{k}, ids, g, mb)
				if (k == "pwo" || k == "gwo") && rapid.IntRange(0, 12).Draw(t, "far") == 0 {
					op.Off = math.MaxUint32 - uint32(rapid.IntRange(0, 1500).Draw(t, "faroff"))
				}
				if k == "gwo" && rapid.IntRange(0, 12).Draw(t, "farlen") == 0 {
					op.Len = math.MaxUint32 - uint32(rapid.IntRange(0, 1500).Draw(t, "farlenv"))
				}
				return op
			})
			var ops []Op
			for _, id := range ids {
				if k := rapid.SampledFrom([]string{"put", "put", "pwo", "embed", ""}).Draw(t, "init"); k != "" {
					ops = append(ops, genOp(t, []string{k}, []uint64{id}, g, mb))
				}
			}
			return OpsCase{G: g, Ops: append(ops, rapid.SliceOfN(gen, 14*n/50, n).Draw(t, "ops")...)}
		},
		Exec: func(r *Run, c OpsCase) error {
			w, err := newWorld(r, c.G, "s.lusf")
			if err != nil {
				return err
			}
			if c.G.D > 10000 && c.G.Place == nil {
				r.Label("huge-objects")
				defer debug.FreeOSMemory()
			}
			for i, op := range c.Ops {
				if op.K == "edge" {
					op = w.edgeOp(op)
				}
				if op.K == "reopen" {
					err = w.Reopen()
				} else if op.K == "pwo" && w.Model[op.ID] == nil && uint64(op.Off)+uint64(op.Size) > lump.LUMP_MAX_SIZE {
					err = w.Step(op)
					r.Label("offset-create-too-big")
				} else {
					err = w.Step(op)
				}
				if err == nil && (op.K == "pwo" || op.K == "reopen") {
					err = w.checkAll()
				}
				if err != nil {
					return at(err, i)
				}
			}
			if err := w.checkAll(); err != nil {
				return err
			}
			if err := w.Reopen(); err != nil {
				return err
			}
			if err := w.checkAll(); err != nil {
				return err
			}
			if (r.labels["offset-write-straddles"] > 0 || r.labels["offset-write-at-end"] > 0) && r.labels["range-read"] > 0 {
				r.NonTrivial()
			}
			r.Count("operations", int64(len(c.Ops)))
			w.Close()
			return nil
		},
		Quick:    Budget{Cases: 7500, Seconds: 40},
		Thorough: Budget{Cases: 60000, Seconds: 600},
	})
}

// edgeOp turns an "edge" operation into an offset read or write near the boundaries of the object.
func (w *World) edgeOp(op Op) Op {
	o := w.Model[op.ID]
	out := Op{K: "gwo", ID: op.ID, Seed: op.Seed, Mis: op.Mis}
	if op.N == 1 {
		out.K = "pwo"
	}
	size := 0
	if o != nil {
		size = len(o.Data)
	}
	anchors := []int{0, blk, size / 2, size - blk, size, size / blk * blk, 2 * blk}
	off := anchors[int(op.Off)%len(anchors)] + op.Size
	if off < 0 {
		off = 0
	}
	var n int
	switch op.Len {
	case 0:
		n = size - off + int(op.End) - 2 // to the end of the object
	case 1:
		n = int(op.End)
	case 2:
		n = blk - off%blk + int(op.End) - 2
	case 3:
		n = blk - 2 + int(op.End)
	case 4:
		n = 2*blk - off%blk + int(op.End) - 2
	default:
		n = size / 2
	}
	if n < 0 {
		n = 0
	}
	if n > 1<<20 {
		n = 1 << 20
	}
	out.Off, out.Len, out.Size = uint32(off), uint32(n), n
	if out.K == "pwo" {
		out.Len = 0
		if o != nil && off+n == size {
			w.R.Label("offset-write-at-end")
		}
	}
	return out
}

var _ = sort.Ints
var _ = fmt.Sprint

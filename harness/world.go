package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"

	"github.com/pkg/errors"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage"
	"github.com/thesues/cannyls-go/storage/journal"
)

const blk = 512

// Geom is the geometry of a store: sectors of the journal region (its header sector included) and of the
// data region.
type Geom struct {
	J int // journal sectors, >= 2
	D int // data blocks, >= 1
	// objects of zero bytes which are in the store from the beginning, in a sparse file
	Place []Placed `json:",omitempty"`
}

// Placed is an object put at a chosen place of the data region.
type Placed struct {
	ID, Start uint64
	Len       int
}

func (g Geom) capacity() uint64 { return uint64(1+g.J+g.D) * blk }

// ratio is a journal ratio that makes the store use exactly J journal sectors.
func (g Geom) ratio() float64 {
	return (float64(g.J)*blk - 256) / float64(g.capacity())
}

// Op is one operation of a case.
type Op struct {
	K    string
	ID   uint64 `json:",omitempty"`
	End  uint64 `json:",omitempty"`
	Size int    `json:",omitempty"`
	Seed int    `json:",omitempty"`
	Mis  int    `json:",omitempty"` // 0: library buffer; n>0: buffer made from a slice n-1 bytes off alignment
	Off  uint32 `json:",omitempty"`
	Len  uint32 `json:",omitempty"`
	N    int    `json:",omitempty"`
}

// payload is the deterministic content of an object.
func payload(seed, size int) []byte {
	b := make([]byte, size)
	switch seed % 9 {
	case 7:
		return b
	case 8:
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 6:
		// looks like journal records: end-of-records and go-to-front markers
		pat := []byte{0, 1, 0, 1, 0, 0, 2, 0, 2, 1}
		for i := range b {
			b[i] = pat[(i+seed)%len(pat)]
		}
		return b
	}
	x := uint64(seed)*0x9E3779B97F4A7C15 + 0x1234567
	for i := 0; i < size; i += 8 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		v := x
		for j := i; j < i+8 && j < size; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// misaligned returns a copy of data starting n bytes off a 512-byte boundary.
func misaligned(data []byte, n int, spare int) []byte {
	big := make([]byte, len(data)+1024+spare)
	ab := block.FromBytes(make([]byte, 1), block.Min()) // only to keep the import honest
	_ = ab
	base := alignOffset(big)
	s := big[base+n : base+n+len(data) : base+n+len(data)+spare]
	copy(s, data)
	return s
}

func mkLump(data []byte, mis int) lump.LumpData {
	if len(data) > lump.LUMP_MAX_SIZE {
		return lump.LumpData{Inner: block.FromBytes(data, block.Min())}
	}
	if mis > 0 && len(data) > 0 {
		spare := 0
		if mis%2 == 0 {
			spare = 512
		}
		return lump.NewLumpDataWithAb(block.FromBytes(misaligned(data, (mis-1)%511, spare), block.Min()))
	}
	l := lump.NewLumpDataAligned(len(data), block.Min())
	copy(l.AsBytes(), data)
	return l
}

// Obj is an object of the reference model.
type Obj struct {
	Data   []byte
	Embed  bool
	Blocks int
}

func blocksFor(size int) int { return (size + 2 + blk - 1) / blk }

func dataObj(data []byte) *Obj { return &Obj{Data: data, Blocks: blocksFor(len(data))} }

func lid(id uint64) lump.LumpId { return lump.FromU64(0, id) }

// World is a store under test together with its reference model.
type World struct {
	R     *Run
	Path  string
	G     Geom
	St    *storage.Storage
	Model map[uint64]*Obj
	Info  storage.StorageUsage

	Appended  int64 // lower bound of the journal bytes appended since creation
	Ring      int64
	FullSeen  bool
	JFullSeen bool
	Autogc    bool
	Snapshot  bool

	// options
	StrictFull bool // a data-full answer must be justified by the free runs
	CallerData bool // the caller's data of a failed write must be unchanged
	Touch      func(id uint64)
	inconsist  error
}

func newWorld(r *Run, g Geom, name string) (*World, error) {
	w := &World{R: r, Path: filepath.Join(r.Dir, name), G: g, Model: map[uint64]*Obj{}, Ring: int64(g.J-1) * blk, Autogc: true}
	if len(g.Place) > 0 {
		return w, w.createSparse()
	}
	st, err := storage.CreateCannylsStorage(w.Path, g.capacity(), g.ratio())
	if err != nil {
		return nil, violate("create-failed", "creating a store with %d journal and %d data sectors: %v", g.J, g.D, err)
	}
	w.St = st
	u := st.Usage()
	if u.JournalCapacity != uint64(g.J)*blk || u.DataCapacity != uint64(g.D)*blk {
		return nil, violate("geometry", "asked for %d/%d journal/data bytes, got %d/%d", g.J*blk, g.D*blk, u.JournalCapacity, u.DataCapacity)
	}
	return w, nil
}

// createSparse makes a store of any size in a sparse file, with the objects of G.Place in it. If the file system can not hold
// such a file, the store is a small one without them.
func (w *World) createSparse() error {
	f, err := os.Create(w.Path)
	if err != nil {
		return err
	}
	if f.Truncate(int64(w.G.capacity())) != nil {
		f.Close()
		os.Remove(w.Path)
		w.R.Label("sparse-unsupported")
		g := w.G
		g.D, g.Place = 60, nil
		w2, err := newWorld(w.R, g, filepath.Base(w.Path))
		if err == nil {
			*w = *w2
		}
		return err
	}
	if w.G.J%2 == 1 {
		// the file ends with the last object written so far
		last := w.G.Place[len(w.G.Place)-1]
		f.Truncate(int64(1+w.G.J+int(last.Start)+last.Len) * blk)
	}
	h := *nvm.DefaultStorageHeader()
	h.JournalRegionSize, h.DataRegionSize = uint64(w.G.J)*blk, uint64(w.G.D)*blk
	var b bytes.Buffer
	if err = h.WriteHeaderRegionTo(&b); err == nil {
		journal.InitialJournalRegion(&b, block.Min())
		b.Write(make([]byte, (blk-b.Len()%blk)%blk))
		_, err = f.WriteAt(b.Bytes(), 0)
	}
	f.Close()
	if err != nil {
		return err
	}
	if w.St, err = openBounded(w.Path, w.G.capacity()); err != nil {
		return err
	}
	if u := w.St.Usage(); u.DataFreeBytes != uint64(w.G.D)*blk || u.DataCapacity != u.DataFreeBytes || u.JournalCapacity != uint64(w.G.J)*blk {
		return violate("geometry", "an empty store of %d/%d journal/data bytes says %+v", w.G.J*blk, w.G.D*blk, u)
	}
	for _, p := range w.G.Place {
		if err := w.St.WriteRecord(lid(p.ID), portion.NewDataPortion(p.Start, uint16(p.Len))); err != nil {
			return violate("write-record", "WriteRecord of blocks [%d,%d): %v", p.Start, p.Start+uint64(p.Len), err)
		}
		w.Model[p.ID] = dataObj(make([]byte, p.Len*blk-2))
		w.appended(20)
	}
	w.R.Label("sparse-store")
	w.St.Close()
	w.St, err = openBounded(w.Path, w.G.capacity())
	return err
}

func isFull(err error) bool {
	c := errors.Cause(err)
	return c == internalerror.StorageFull || c == internalerror.JournalStorageFull
}
func isStorageFull(err error) bool { return errors.Cause(err) == internalerror.StorageFull }
func isJournalFull(err error) bool { return errors.Cause(err) == internalerror.JournalStorageFull }
func isInvalid(err error) bool     { return errors.Cause(err) == internalerror.InvalidInput }

func (w *World) touch(id uint64) {
	if w.Touch != nil {
		w.Touch(id)
	}
}

func (w *World) noteFull(err error) {
	if isStorageFull(err) {
		w.FullSeen = true
		w.R.Label("storage-full")
	}
	if isJournalFull(err) {
		w.JFullSeen = true
		w.R.Label("journal-full")
	}
}

// freeRun computes the longest run of free blocks, pretending the given id does not exist.
func (w *World) freeRun(except uint64) int {
	type iv struct{ s, e uint64 }
	var used []iv
	for id, o := range w.Model {
		if o.Embed || id == except {
			continue
		}
		p, err := w.St.GetRecord(lid(id))
		if err != nil {
			return -1
		}
		used = append(used, iv{p.Start.AsU64(), p.End()})
	}
	sort.Slice(used, func(i, j int) bool { return used[i].s < used[j].s })
	var pos, best uint64
	for _, u := range used {
		if u.s > pos && u.s-pos > best {
			best = u.s - pos
		}
		if u.e > pos {
			pos = u.e
		}
	}
	if end := uint64(w.G.D); end > pos && end-pos > best {
		best = end - pos
	}
	return int(best)
}

// failedWrite checks what is left of id after a put-like operation failed.
func (w *World) failedWrite(op Op, id uint64, err error) error {
	w.noteFull(err)
	old := w.Model[id]
	_, e := w.St.GetSizeOnDisk(lid(id))
	if old == nil {
		if e == nil {
			return violate("failed-op-effect", "%s of absent id %d failed (%v) but the id exists now", op.K, id, err)
		}
		return nil
	}
	if e != nil {
		// being replaced and gone: allowed, but it must stay gone
		delete(w.Model, id)
		w.R.Label("replaced-and-lost")
		return nil
	}
	return w.checkOne(id)
}

// checkOne compares one object with the model through the reading operations.
func (w *World) checkOne(id uint64) error {
	want := w.Model[id]
	got, err := w.St.Get(lid(id))
	if want == nil {
		if err == nil {
			return violate("ghost-object", "id %d is absent but Get returned %d bytes", id, len(got))
		}
		if !isInvalid(err) {
			return violate("wrong-error", "Get of absent id %d: %v", id, err)
		}
		return nil
	}
	if err != nil {
		return violate("lost-object", "Get of id %d (%d bytes, embedded %v): %v", id, len(want.Data), want.Embed, err)
	}
	if !bytes.Equal(got, want.Data) {
		return violate("wrong-bytes", "Get of id %d (embedded %v): %s", id, want.Embed, diffBytes(got, want.Data))
	}
	return nil
}

func (w *World) checkSizes(id uint64) error {
	want := w.Model[id]
	n, err := w.St.GetSize(lid(id))
	d, err2 := w.St.GetSizeOnDisk(lid(id))
	if want == nil {
		if err == nil || err2 == nil {
			return violate("ghost-object", "id %d is absent but GetSize gave %d (%v), GetSizeOnDisk %d (%v)", id, n, err, d, err2)
		}
		return nil
	}
	if err != nil || err2 != nil {
		return violate("lost-object", "sizes of id %d: %v, %v", id, err, err2)
	}
	if int(n) != len(want.Data) {
		return violate("wrong-size", "GetSize of id %d is %d, want %d", id, n, len(want.Data))
	}
	wd := want.Blocks * blk
	if want.Embed {
		wd = len(want.Data)
	}
	if int(d) != wd {
		return violate("wrong-size", "GetSizeOnDisk of id %d is %d, want %d", id, d, wd)
	}
	return nil
}

func diffBytes(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("got %d bytes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			e := i + 8
			if e > len(got) {
				e = len(got)
			}
			return fmt.Sprintf("first difference at byte %d of %d: got % x, want % x", i, len(got), got[i:e], want[i:e])
		}
	}
	return "equal"
}

func (w *World) sortedIDs() []uint64 {
	ids := make([]uint64, 0, len(w.Model))
	for id := range w.Model {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func (w *World) checkList() error {
	want := w.sortedIDs()
	got := w.St.List()
	if len(got) != len(want) {
		return violate("wrong-ids", "List has %d ids %v, want %d %v", len(got), got, len(want), want)
	}
	for i := range got {
		if got[i].U64() != want[i] {
			return violate("wrong-ids", "List is %v, want %v", got, want)
		}
	}
	return nil
}

// checkAll compares the whole store with the model.
func (w *World) checkAll() error {
	if err := w.checkList(); err != nil {
		return err
	}
	for _, id := range w.sortedIDs() {
		if err := w.checkOne(id); err != nil {
			return err
		}
		if err := w.checkSizes(id); err != nil {
			return err
		}
	}
	return nil
}

func (w *World) liveBlocks() int {
	n := 0
	for _, o := range w.Model {
		if !o.Embed {
			n += o.Blocks
		}
	}
	return n
}

// checkSpace checks the space accounting against the model.
func (w *World) checkSpace() error {
	u := w.St.Usage()
	if u.FileCounts != uint64(len(w.Model)) {
		return violate("file-count", "Usage reports %d objects, there are %d", u.FileCounts, len(w.Model))
	}
	want := uint64(w.G.D-w.liveBlocks()) * blk
	if u.DataFreeBytes != want {
		return violate("free-space", "Usage reports %d free bytes, want %d (%d blocks live of %d)", u.DataFreeBytes, want, w.liveBlocks(), w.G.D)
	}
	type iv struct{ s, e, id uint64 }
	var used []iv
	for id, o := range w.Model {
		p, err := w.St.GetRecord(lid(id))
		if o.Embed {
			if err == nil {
				return violate("record", "GetRecord of embedded id %d gave %v", id, p)
			}
			continue
		}
		if err != nil {
			return violate("record", "GetRecord of id %d: %v", id, err)
		}
		if int(p.Len) != o.Blocks {
			return violate("record", "id %d of %d bytes occupies %d blocks, want %d", id, len(o.Data), p.Len, o.Blocks)
		}
		used = append(used, iv{p.Start.AsU64(), p.End(), id})
	}
	sort.Slice(used, func(i, j int) bool { return used[i].s < used[j].s })
	for i, x := range used {
		if x.e > uint64(w.G.D) {
			return violate("outside", "id %d occupies blocks [%d,%d) of %d", x.id, x.s, x.e, w.G.D)
		}
		if i > 0 && x.s < used[i-1].e {
			return violate("overlap", "ids %d [%d,%d) and %d [%d,%d) share blocks", used[i-1].id, used[i-1].s, used[i-1].e, x.id, x.s, x.e)
		}
	}
	run := w.freeRun(^uint64(0) - 12345)
	wantMax := uint64(0)
	if run > 0 {
		wantMax = uint64(run)*blk - 2
		if wantMax > lump.LUMP_MAX_SIZE {
			wantMax = lump.LUMP_MAX_SIZE
		}
	}
	if u.MaxSegmentSize != wantMax {
		return violate("max-segment", "Usage reports a maximum segment of %d bytes, the longest free run is %d blocks (%d bytes)", u.MaxSegmentSize, run, wantMax)
	}
	return nil
}

// checkUsageDetail compares the reported journal usage and the allocation picture with the journal and the objects.
func (w *World) checkUsageDetail() error {
	u := w.St.Usage()
	js := w.St.JournalSnapshot()
	use := int64(js.Tail) - int64(js.UnreleasedHead)
	if use < 0 {
		use += w.Ring
	}
	if int64(u.JournalUsageBytes) != use {
		return violate("journal-usage", "Usage reports %d used journal bytes; the journal is in use from %d to %d of %d", u.JournalUsageBytes, js.UnreleasedHead, js.Tail, w.Ring)
	}
	const n = 4 << 20 / blk
	if w.G.D > 1<<21 {
		return nil // it takes too long
	}
	got := w.St.GetAllocationStatus()
	if len(got) != w.G.D/n {
		return violate("allocation-status", "GetAllocationStatus has %d entries for %d blocks", len(got), w.G.D)
	}
	occ := make([]uint64, len(got))
	for id, o := range w.Model {
		if o.Embed {
			continue
		}
		p, err := w.St.GetRecord(lid(id))
		if err != nil {
			return violate("record", "GetRecord of id %d: %v", id, err)
		}
		for b := p.Start.AsU64(); b < p.End() && b/n < uint64(len(occ)); b++ {
			occ[b/n]++
		}
	}
	for i := range got {
		if math.Abs(got[i]-float64(occ[i])/n) > 1e-9 {
			return violate("allocation-status", "GetAllocationStatus[%d] is %v, but %d of %d blocks are occupied", i, got[i], occ[i], n)
		}
	}
	return nil
}

// tryOpen opens a store, bounding the device reads it may do. viol is set if opening panicked or did not end.
func tryOpen(path string, capacity uint64) (st *storage.Storage, err, viol error) {
	reads := 0
	limit := int(capacity/blk)*8 + 20000
	old := hookFn
	setHook(func(io *nvm.VerifIO) error {
		if io.Op == "read" && !io.After {
			reads++
			if reads > limit {
				return errors.New("verif: too many reads")
			}
		}
		if old != nil {
			return old(io)
		}
		return nil
	})
	defer setHook(old)
	defer func() {
		if x := recover(); x != nil {
			if reads > limit {
				st, viol = nil, violate("open-endless", "opening did more than %d device reads on a file of %d bytes", limit, capacity)
				return
			}
			st, viol = nil, violate("open-panic", "opening panicked: %v\n%s", x, trimStack(string(debug.Stack())))
		}
	}()
	st, err = storage.OpenCannylsStorage(path)
	if reads > limit {
		return nil, nil, violate("open-endless", "opening did more than %d device reads on a file of %d bytes", limit, capacity)
	}
	return st, err, nil
}

// openBounded opens a store that must open.
func openBounded(path string, capacity uint64) (*storage.Storage, error) {
	st, err, viol := tryOpen(path, capacity)
	if viol != nil {
		return nil, viol
	}
	if err != nil {
		return nil, violate("open-failed", "opening: %v", err)
	}
	return st, nil
}

// Reopen closes and opens the store and compares what is observable.
func (w *World) Reopen() error {
	before := w.St.Usage()
	w.St.Close()
	st, err := openBounded(w.Path, w.G.capacity())
	if err != nil {
		return err
	}
	w.St = st
	w.R.Label("reopen")
	after := st.Usage()
	w.St.SetAutomaticGcMode(w.Autogc)
	if before.JournalCapacity != after.JournalCapacity || before.DataCapacity != after.DataCapacity ||
		before.FileCounts != after.FileCounts || before.DataFreeBytes != after.DataFreeBytes || before.MaxSegmentSize != after.MaxSegmentSize {
		return violate("reopen-usage", "usage before close %+v, after open %+v", before, after)
	}
	return nil
}

func (w *World) Close() {
	if w.St != nil {
		w.St.Close()
		w.St = nil
	}
}

func (w *World) appended(n int) {
	w.Appended += int64(n)
	if w.Appended > w.Ring {
		w.R.Label("journal-wrapped")
	}
	if w.Appended > 3*w.Ring {
		w.R.Label("journal-wrapped-3x")
	}
}

// Step executes one operation and checks its answer against the model.
func (w *World) Step(op Op) error {
	st := w.St
	id := op.ID
	old := w.Model[id]
	switch op.K {
	case "put":
		w.touch(id)
		data := payload(op.Seed, op.Size)
		run := -1
		l := mkLump(data, op.Mis)
		updated, err := st.Put(lid(id), l)
		if err != nil && w.CallerData && !bytes.Equal(l.AsBytes(), data) {
			return violate("caller-data", "Put of %d bytes failed (%v) and left the caller's data as %s", op.Size, err, diffBytes(l.AsBytes(), data))
		}
		if op.Size > lump.LUMP_MAX_SIZE {
			if err == nil {
				return violate("oversize", "Put of %d bytes succeeded", op.Size)
			}
			w.R.Label("oversize-refused")
		}
		if err != nil {
			if !isFull(err) && !(op.Size > lump.LUMP_MAX_SIZE && isInvalid(err)) {
				return violate("put-failed", "Put of %d bytes under id %d: %v", op.Size, id, err)
			}
			if w.StrictFull && isStorageFull(err) {
				if run = w.freeRun(^uint64(0) - 12345); run >= blocksFor(op.Size) {
					return violate("false-full", "Put of %d bytes (%d blocks) refused as full, but a run of %d blocks is free", op.Size, blocksFor(op.Size), run)
				}
				if run = w.freeRun(id); run >= blocksFor(op.Size) {
					// the blocks of the old object would have been enough: only a full journal excuses keeping it
					if err := w.failedWrite(op, id, err); err != nil {
						return err
					}
					if w.Model[id] == nil {
						return violate("false-full", "Put of %d bytes (%d blocks) refused as full although the object it replaces is gone and a run of %d blocks is free", op.Size, blocksFor(op.Size), run)
					}
					if _, _, err := st.Delete(lid(id)); !isJournalFull(err) {
						return violate("false-full", "Put of %d bytes (%d blocks) refused as full, but replacing the old object would have made a run of %d blocks (deleting it: %v)", op.Size, blocksFor(op.Size), run, err)
					}
					w.JFullSeen = true
					w.R.Label("journal-full")
					return w.checkOne(id)
				}
			}
			return w.failedWrite(op, id, err)
		}
		w.appended(20)
		if updated != (old != nil) {
			return violate("updated-flag", "Put under id %d: replaced=%v, but the id existed: %v", id, updated, old != nil)
		}
		if old != nil {
			w.R.Label("overwrite")
			if old.Embed {
				w.R.Label("overwrite-embed-by-data")
			}
		}
		w.Model[id] = dataObj(data)
	case "embed":
		w.touch(id)
		data := payload(op.Seed, op.Size)
		arg := append([]byte(nil), data...)
		updated, err := st.PutEmbed(lid(id), arg)
		if err != nil {
			if !isFull(err) && !(op.Size > 0xFFFF && isInvalid(err)) {
				return violate("embed-failed", "PutEmbed of %d bytes under id %d: %v", op.Size, id, err)
			}
			return w.failedWrite(op, id, err)
		}
		if op.Size > 0xFFFF {
			return violate("oversize", "PutEmbed of %d bytes succeeded", op.Size)
		}
		w.appended(15 + op.Size)
		for i := range arg { // the store must not keep the caller's slice
			arg[i] ^= 0x5a
		}
		if updated != (old != nil) {
			return violate("updated-flag", "PutEmbed under id %d: replaced=%v, but the id existed: %v", id, updated, old != nil)
		}
		if old != nil {
			w.R.Label("overwrite")
			if !old.Embed {
				w.R.Label("overwrite-data-by-embed")
			}
		}
		w.Model[id] = &Obj{Data: data, Embed: true}
	case "pwo":
		w.touch(id)
		data := payload(op.Seed, op.Size)
		l := mkLump(data, op.Mis)
		err := st.PutWithOffset(lid(id), l, op.Off, op.Len)
		if err != nil && w.CallerData && !bytes.Equal(l.AsBytes(), data) {
			return violate("caller-data", "PutWithOffset of %d bytes failed (%v) and left the caller's data as %s", op.Size, err, diffBytes(l.AsBytes(), data))
		}
		switch {
		case old == nil:
			total := uint64(op.Off) + uint64(op.Size)
			if uint64(op.Len) > total {
				total = uint64(op.Len)
			}
			if err != nil {
				if isFull(err) || (total > lump.LUMP_MAX_SIZE && isInvalid(err)) {
					return w.failedWrite(op, id, err)
				}
				return violate("pwo-failed", "PutWithOffset(%d bytes at %d, reserve %d) creating id %d: %v", op.Size, op.Off, op.Len, id, err)
			}
			if total > lump.LUMP_MAX_SIZE {
				return violate("oversize", "PutWithOffset creating %d bytes succeeded", total)
			}
			full := make([]byte, total)
			copy(full[op.Off:], data)
			w.Model[id] = dataObj(full)
			w.appended(20)
			w.R.Label("offset-create")
		case old.Embed:
			if err == nil {
				return violate("pwo-embedded", "PutWithOffset into embedded id %d succeeded", id)
			}
			if !isInvalid(err) {
				return violate("wrong-error", "PutWithOffset into embedded id %d: %v", id, err)
			}
		default:
			fits := uint64(op.Off)+uint64(op.Size) <= uint64(len(old.Data))
			if err != nil {
				if fits || !isInvalid(err) {
					return violate("pwo-failed", "PutWithOffset(%d bytes at %d) into id %d of %d bytes: %v", op.Size, op.Off, id, len(old.Data), err)
				}
				w.R.Label("offset-write-refused")
				return w.checkOne(id)
			}
			if !fits {
				return violate("pwo-grew", "PutWithOffset(%d bytes at %d) into id %d of %d bytes succeeded", op.Size, op.Off, id, len(old.Data))
			}
			nd := append([]byte(nil), old.Data...)
			copy(nd[op.Off:], data)
			w.Model[id] = &Obj{Data: nd, Blocks: old.Blocks}
			w.R.Label("offset-write")
			if int(op.Off)/blk != (int(op.Off)+op.Size-1)/blk {
				w.R.Label("offset-write-straddles")
			}
		}
	case "del":
		w.touch(id)
		updated, size, err := st.Delete(lid(id))
		if err != nil {
			if !isJournalFull(err) {
				return violate("delete-failed", "Delete of id %d: %v", id, err)
			}
			w.noteFull(err)
			return w.checkOne(id)
		}
		if updated != (old != nil) {
			return violate("updated-flag", "Delete of id %d: deleted=%v, but the id existed: %v", id, updated, old != nil)
		}
		if old != nil {
			want := old.Blocks * blk
			if old.Embed {
				want = len(old.Data)
			}
			if int(size) != want {
				return violate("wrong-size", "Delete of id %d reports %d released bytes, want %d", id, size, want)
			}
			w.appended(13)
			w.R.Label("delete")
		}
		delete(w.Model, id)
	case "delr":
		hit := 0
		for k := range w.Model {
			if k >= op.ID && k < op.End {
				w.touch(k)
				hit++
			}
		}
		err := st.DeleteRange(lid(op.ID), lid(op.End), true)
		if err != nil {
			if !isJournalFull(err) {
				return violate("delete-failed", "DeleteRange [%d,%d): %v", op.ID, op.End, err)
			}
			w.noteFull(err)
			return w.checkList()
		}
		w.appended(21)
		for k := range w.Model {
			if k >= op.ID && k < op.End {
				delete(w.Model, k)
			}
		}
		if hit > 0 {
			w.R.Label("delete-range")
		}
	case "get":
		return w.checkOne(id)
	case "gsz":
		return w.checkSizes(id)
	case "gwo":
		return w.checkRange(id, op.Off, op.Len)
	case "list":
		return w.checkList()
	case "query":
		return w.checkQueries(op)
	case "check":
		return w.checkAll()
	case "space":
		return w.checkSpace()
	case "sync":
		st.Sync()
		w.R.Label("sync")
	case "flush":
		st.Flush()
	case "side":
		st.RunSideJobOnce(op.N)
		w.R.Label("side-job")
	case "gc":
		st.JournalGC()
		w.R.Label("full-gc")
	case "autogc":
		w.Autogc = op.N%2 == 0
		st.SetAutomaticGcMode(w.Autogc)
	case "rerec":
		if old == nil || old.Embed {
			_, err := st.GetRecord(lid(id))
			if err == nil {
				return violate("record", "GetRecord of id %d (exists %v) succeeded", id, old != nil)
			}
			return nil
		}
		p, err := st.GetRecord(lid(id))
		if err != nil {
			return violate("record", "GetRecord of id %d: %v", id, err)
		}
		if err := st.WriteRecord(lid(id), *p); err != nil {
			w.noteFull(err)
			if !isJournalFull(err) {
				return violate("record", "WriteRecord of id %d: %v", id, err)
			}
			return nil
		}
		w.appended(20)
		w.R.Label("re-record")
	case "reopen":
		if err := w.Reopen(); err != nil {
			return err
		}
	case "snapc":
		err := st.CreateSnapshot()
		if (err == nil) == w.Snapshot {
			return violate("snapshot", "CreateSnapshot with a snapshot present %v: %v", w.Snapshot, err)
		}
		w.Snapshot = true
		w.R.Label("snapshot")
	case "snapd":
		if err := st.DeleteSnapshot(); err != nil {
			return violate("snapshot", "DeleteSnapshot: %v", err)
		}
		w.Snapshot = false
	case "usage":
		st.Usage()
		if w.G.D <= 1<<21 {
			st.GetAllocationStatus()
		}
	case "jsnap":
		st.JournalSnapshot()
	case "bulk":
		for i, o := range expandBulk(op) {
			if err := w.Step(o); err != nil {
				if v, ok := err.(*Violation); ok {
					return violate(v.Class, "step %d of %+v, %+v: %s", i, op, o, v.Msg)
				}
				return err
			}
		}
		w.R.Label("bulk")
		if op.N > 8192 {
			w.R.Label("bulk-over-8192-records")
		}
	default:
		harnessFail(fmt.Errorf("unknown op %q", op.K))
	}
	return nil
}

// checkRange compares a range read with the model.
func (w *World) checkRange(id uint64, off, length uint32) error {
	want := w.Model[id]
	got, err := w.St.GetWithOffset(lid(id), off, length)
	if want == nil {
		if err == nil {
			return violate("ghost-object", "GetWithOffset of absent id %d succeeded", id)
		}
		return nil
	}
	size := uint64(len(want.Data))
	end := uint64(off) + uint64(length)
	if uint64(off) > size {
		if err == nil {
			return violate("range-read", "GetWithOffset(%d,%d) beyond the end of id %d (%d bytes) returned %d bytes", off, length, id, size, len(got))
		}
		return nil
	}
	if end > size {
		// beyond the object: either cut at its end, or refused
		if err != nil {
			if !isInvalid(err) {
				return violate("wrong-error", "GetWithOffset(%d,%d) of id %d (%d bytes): %v", off, length, id, size, err)
			}
			// the reserved blocks bound what may be asked for: only requests within them must be answered
			limit := uint64(want.Blocks)*blk - 2
			if want.Embed {
				limit = size
			}
			if end <= limit {
				return violate("range-read", "GetWithOffset(%d,%d) of id %d (%d bytes) refused: %v", off, length, id, size, err)
			}
			return nil
		}
		end = size
	} else if err != nil {
		return violate("range-read", "GetWithOffset(%d,%d) of id %d (%d bytes, embedded %v): %v", off, length, id, size, want.Embed, err)
	}
	if !bytes.Equal(got, want.Data[off:end]) {
		return violate("range-read", "GetWithOffset(%d,%d) of id %d (%d bytes, embedded %v): %s", off, length, id, size, want.Embed, diffBytes(got, want.Data[off:end]))
	}
	w.R.Label("range-read")
	return nil
}

// checkQueries compares the ordered queries with the sorted ids.
func (w *World) checkQueries(op Op) error {
	ids := w.sortedIDs()
	st := w.St
	min, ok := st.MinId()
	max, ok2 := st.MaxId()
	if ok != (len(ids) > 0) || ok2 != (len(ids) > 0) {
		return violate("query", "MinId/MaxId present %v/%v with %d objects", ok, ok2, len(ids))
	}
	if len(ids) > 0 && (min.U64() != ids[0] || max.U64() != ids[len(ids)-1]) {
		return violate("query", "MinId/MaxId %d/%d, want %d/%d", min.U64(), max.U64(), ids[0], ids[len(ids)-1])
	}
	i := sort.Search(len(ids), func(i int) bool { return ids[i] >= op.ID })
	f, err := st.First(lid(op.ID))
	if (err == nil) != (i < len(ids)) {
		return violate("query", "First(%d) error %v with ids %v", op.ID, err, ids)
	}
	if err == nil && f.U64() != ids[i] {
		return violate("query", "First(%d)=%d, want %d", op.ID, f.U64(), ids[i])
	}
	var want []uint64
	for _, x := range ids {
		if x >= op.ID && x < op.End && len(want) < op.N {
			want = append(want, x)
		}
	}
	got := st.ListRange(lid(op.ID), lid(op.End), uint64(op.N))
	if len(got) != len(want) {
		return violate("query", "ListRange(%d,%d,%d)=%v, want %v", op.ID, op.End, op.N, got, want)
	}
	for i := range got {
		if got[i].U64() != want[i] {
			return violate("query", "ListRange(%d,%d,%d)=%v, want %v", op.ID, op.End, op.N, got, want)
		}
	}
	e, have := st.GenerateEmptyId()
	if !have {
		return violate("query", "GenerateEmptyId found none with %d objects", len(ids))
	}
	if w.Model[e.U64()] != nil {
		return violate("query", "GenerateEmptyId gave %d, which is in use", e.U64())
	}
	w.R.Label("query")
	return nil
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0644)
}

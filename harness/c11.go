package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/thesues/cannyls-go/nvm"
	"pgregory.net/rapid"
)

// C11Op is one operation on one of two stores which live in the same directory.
//
// Besides the ordinary operations: "snapc" creates a snapshot (N chooses the region size), "snapd" deletes it, "snapr" makes a
// reader, "read" uses a reader (seek, then N reads of Size bytes), "save" copies the snapshot to a file and opens it,
// "junk" drops a file with a similar name into the directory.
type C11Op struct {
	W     int // which store
	Crash int `json:",omitempty"` // n>0: copy the files at the n-th device write of the operation and judge the copy
	Cut   int `json:",omitempty"` // >0: the copy ends inside of what the operation appended to the snapshot file
	Op
}

// C11Case is a history on two stores.
type C11Case struct {
	G     [2]Geom
	Other int // the name of the second store
	Ops   []C11Op
	Far   *C11Far `json:",omitempty"` // instead of all the others
}

var c11Names = []string{"t.lusf", "s_a.lusf", "ss.lusf", "S.lusf", "s_.lusf", "s_01234567-89ab-4def-8123-456789abcdef_lusf.snapshot.lusf", "s.lusf.lusf"}

var c11Junk = []string{"s_foo_lusf.snapshot", "sx_01234567-89ab-4def-8123-456789abcdef_lusf.snapshot", "_01234567-89ab-4def-8123-456789abcdef_lusf.snapshot",
	"s_01234567-89ab-4def-8123-456789abcdef_lusf.snapshot.tmp", "s_01234567-89ab-4def-8123-456789abcdef_lusf", "s__lusf.snapshot", "s_a_01234567-89ab-4def-8123-456789abcdef_lusf.snapshots"}

// snapImage is what a snapshot must contain.
type snapImage struct {
	raw   []byte
	model map[uint64]*Obj
}

type snapReader struct {
	rd  *nvm.SnapshotReader
	img *snapImage
	pos int64
}

type snapWorld struct {
	*World
	img     *snapImage // of the current snapshot, nil without one
	files   []string   // what its creation added to the directory
	readers []*snapReader
	saved   int
}

func (w *snapWorld) file() []byte {
	b, err := os.ReadFile(w.Path)
	if err != nil {
		harnessFail(err)
	}
	return b
}

func (w *snapWorld) take() {
	m := map[uint64]*Obj{}
	for id, o := range w.Model {
		m[id] = o
	}
	w.img = &snapImage{raw: w.file(), model: m}
}

func (w *snapWorld) reader() (*snapReader, error) {
	had := w.img != nil
	before := w.listing()
	rd, err := w.St.GetSnapshotReader()
	if err != nil {
		return nil, violate("snapshot-reader", "GetSnapshotReader (snapshot exists %v): %v", had, err)
	}
	if !had {
		w.take()
		w.files = w.snapshotFiles(before)
		w.R.Label("created-by-reader")
	}
	x := &snapReader{rd: rd, img: w.img}
	w.readers = append(w.readers, x)
	if len(w.readers) > 3 {
		w.readers = w.readers[1:]
	}
	return x, nil
}

// readSome seeks and reads and compares with the image.
func (w *snapWorld) readSome(x *snapReader, op Op) error {
	size := int64(len(x.img.raw))
	current := x.img == w.img
	bad := func(class, format string, a ...any) error {
		return violate(class, "snapshot reader (of the current snapshot: %v): %s", current, fmt.Sprintf(format, a...))
	}
	seek := func(off int64, whence int, want int64) error {
		got, err := x.rd.Seek(off, whence)
		if want < 0 || want > size {
			if err == nil && got != want {
				return bad("snapshot-seek", "Seek(%d,%d) gave %d, want %d or an error", off, whence, got, want)
			}
			if err == nil {
				x.pos = want
			}
			return nil
		}
		if err != nil || got != want {
			return bad("snapshot-seek", "Seek(%d,%d) at %d of %d gave %d, %v", off, whence, x.pos, size, got, err)
		}
		x.pos = want
		return nil
	}
	var err error
	switch op.ID % 5 {
	case 0:
		err = seek(int64(op.Off)%(size+1), io.SeekStart, int64(op.Off)%(size+1))
	case 1:
		d := int64(op.Off)%4000 - 2000
		err = seek(d, io.SeekCurrent, x.pos+d)
	case 2:
		d := -(int64(op.Off) % (size + 2))
		err = seek(d, io.SeekEnd, size+d)
	case 3: // around a region boundary
		p := int64(1+op.Seed%4)<<20 + int64(op.Off)%5 - 2
		err = seek(p, io.SeekStart, p)
	}
	if err != nil {
		return err
	}
	buf := make([]byte, op.Size)
	for i := 0; i < op.N; i++ {
		n, err := x.rd.Read(buf)
		if n < 0 || n > len(buf) || x.pos+int64(n) > size {
			return bad("snapshot-read", "Read of %d bytes at %d of %d gave %d bytes, %v", len(buf), x.pos, size, n, err)
		}
		if !bytes.Equal(buf[:n], x.img.raw[x.pos:x.pos+int64(n)]) {
			return bad("snapshot-content", "Read of %d bytes at %d of %d: %s", len(buf), x.pos, size, diffBytes(buf[:n], x.img.raw[x.pos:x.pos+int64(n)]))
		}
		x.pos += int64(n)
		if err == io.EOF {
			if x.pos != size {
				return bad("snapshot-eof", "end of file at %d of %d", x.pos, size)
			}
			break
		}
		if err != nil {
			if current {
				return bad("snapshot-read", "Read of %d bytes at %d of %d: %v", len(buf), x.pos, size, err)
			}
			w.R.Label("stale-reader-error")
			break
		}
		if n == 0 && len(buf) > 0 {
			return bad("snapshot-read", "Read of %d bytes at %d of %d gave nothing and no error", len(buf), x.pos, size)
		}
	}
	w.R.Label("partial-read")
	return nil
}

// wholeImage reads a snapshot from the start and compares it.
func wholeImage(rd *nvm.SnapshotReader, img *snapImage, chunk int) error {
	var got bytes.Buffer
	if _, err := io.CopyBuffer(struct{ io.Writer }{&got}, struct{ io.Reader }{rd}, make([]byte, chunk)); err != nil {
		return violate("snapshot-read", "reading the whole snapshot in pieces of %d: %v after %d of %d bytes", chunk, err, got.Len(), len(img.raw))
	}
	if !bytes.Equal(got.Bytes(), img.raw) {
		return violate("snapshot-content", "the whole snapshot read in pieces of %d differs from the device at its creation: %s", chunk, diffBytes(got.Bytes(), img.raw))
	}
	return nil
}

func (w *snapWorld) save(op Op) error {
	x, err := w.reader()
	if err != nil {
		return err
	}
	chunk := []int{512, 513, 4096, 100000, 1 << 20, 1<<20 + 1, 3 << 20}[op.N%7]
	if chunk < 4096 && len(x.img.raw) > 1<<20 {
		chunk *= 64
	}
	if err := wholeImage(x.rd, x.img, chunk); err != nil {
		return err
	}
	x.pos = int64(len(x.img.raw))
	w.saved++
	dir := filepath.Join(w.R.Dir, fmt.Sprintf("saved%d", w.saved))
	if err := os.Mkdir(dir, 0755); err != nil {
		harnessFail(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "s.lusf")
	if err := os.WriteFile(path, x.img.raw, 0644); err != nil {
		harnessFail(err)
	}
	if err := opensAs(w.R, path, w.G, x.img.model); err != nil {
		return err
	}
	w.R.Label("saved-and-opened")
	return nil
}

// opensAs opens a store file and compares it with a model.
func opensAs(r *Run, path string, g Geom, model map[uint64]*Obj) error {
	st, err := openBounded(path, g.capacity())
	if err != nil {
		return wrapClass("saved-", err)
	}
	defer st.Close()
	w := &World{R: r, Path: path, G: g, St: st, Model: model}
	if err := w.checkAll(); err != nil {
		return wrapClass("saved-", err)
	}
	return wrapClass("saved-", w.checkSpace())
}

func wrapClass(prefix string, err error) error {
	if v, ok := err.(*Violation); ok {
		return violate(prefix+v.Class, "%s", v.Msg)
	}
	return err
}

// listing returns the regular files of the directory.
func (w *snapWorld) listing() map[string]bool {
	out := map[string]bool{}
	es, err := os.ReadDir(w.R.Dir)
	if err != nil {
		harnessFail(err)
	}
	for _, e := range es {
		if e.Type().IsRegular() {
			out[e.Name()] = true
		}
	}
	return out
}

// snapshotFiles are the files which appeared since before.
func (w *snapWorld) snapshotFiles(before map[string]bool) []string {
	var out []string
	for n := range w.listing() {
		if !before[n] {
			out = append(out, filepath.Join(w.R.Dir, n))
		}
	}
	return out
}

func (w *snapWorld) step(op C11Op) error {
	switch op.K {
	case "snapc":
		nvm.DEFAULT_REGION_SHIFT = uint16(20 + op.N%3)
		before := w.listing()
		err := w.St.CreateSnapshot()
		if (err == nil) == (w.img != nil) {
			return violate("snapshot", "CreateSnapshot with a snapshot present %v: %v", w.img != nil, err)
		}
		if err == nil {
			w.take()
			w.files = w.snapshotFiles(before)
			w.R.Label("snapshot-created")
		} else {
			if n := w.snapshotFiles(before); len(n) > 0 {
				return violate("snapshot-files", "a refused CreateSnapshot left %v behind", n)
			}
			w.R.Label("second-snapshot-refused")
		}
	case "snapd":
		before := w.file()
		if err := w.St.DeleteSnapshot(); err != nil {
			return violate("snapshot", "DeleteSnapshot with a snapshot present %v: %v", w.img != nil, err)
		}
		if w.img != nil {
			w.R.Label("snapshot-deleted")
		}
		w.img = nil
		if !bytes.Equal(before, w.file()) {
			return violate("live-store-changed", "deleting the snapshot changed the store file")
		}
		for _, f := range w.files {
			if _, err := os.Stat(f); err == nil {
				return violate("snapshot-files", "%s is left after DeleteSnapshot", filepath.Base(f))
			}
		}
		w.files = nil
	case "snapr":
		nvm.DEFAULT_REGION_SHIFT = uint16(20 + op.N%3)
		if _, err := w.reader(); err != nil {
			return err
		}
	case "read":
		if len(w.readers) == 0 {
			return nil
		}
		before := w.file()
		if err := w.readSome(w.readers[op.Seed%len(w.readers)], op.Op); err != nil {
			return err
		}
		if !bytes.Equal(before, w.file()) {
			return violate("live-store-changed", "reading the snapshot changed the store file")
		}
	case "save":
		if w.img == nil {
			return nil
		}
		return w.save(op.Op)
	case "junk":
		if err := os.WriteFile(filepath.Join(w.R.Dir, c11Junk[op.N%len(c11Junk)]), payload(op.Seed, 300), 0644); err != nil {
			harnessFail(err)
		}
	case "reopen":
		w.readers = nil
		if err := w.Reopen(); err != nil {
			return err
		}
		if w.img != nil {
			w.R.Label("reopen-with-snapshot")
		}
	default:
		return w.Step(op.Op)
	}
	return nil
}

// crashStep executes an operation and judges copies of the files made at one of its device writes.
func (w *snapWorld) crashStep(op C11Op) error {
	hadImg := w.img
	sizes := map[string]int64{} // of the snapshot files at the device write before
	before := w.listing()
	files := func() []string {
		if hadImg != nil {
			return w.files
		}
		return w.snapshotFiles(before)
	}
	measure := func() {
		for _, f := range files() {
			if st, err := os.Stat(f); err == nil {
				sizes[filepath.Base(f)] = st.Size()
			}
		}
	}
	measure()
	dir := filepath.Join(w.R.Dir, "crash")
	n := 0
	taken := false
	setHook(func(io *nvm.VerifIO) error {
		if io.Op != "write" || io.After || io.Path != w.Path || taken {
			return nil
		}
		if n++; n != op.Crash {
			measure()
			return nil
		}
		taken = true
		if err := os.Mkdir(dir, 0755); err != nil {
			harnessFail(err)
		}
		if err := os.WriteFile(filepath.Join(dir, filepath.Base(w.Path)), w.file(), 0644); err != nil {
			harnessFail(err)
		}
		for _, f := range files() {
			b, err := os.ReadFile(f)
			if err != nil {
				harnessFail(err)
			}
			if old := sizes[filepath.Base(f)]; op.Cut > 0 && hadImg != nil && int64(len(b)) > old {
				b = b[:old+int64(op.Cut*7919)%(int64(len(b))-old)]
				w.R.Label("torn-snapshot-file")
			}
			if err := os.WriteFile(filepath.Join(dir, filepath.Base(f)), b, 0644); err != nil {
				harnessFail(err)
			}
		}
		return nil
	})
	err := w.step(op)
	setHook(nil)
	if err != nil || !taken {
		return err
	}
	defer os.RemoveAll(dir)
	st, err := openBounded(filepath.Join(dir, filepath.Base(w.Path)), w.G.capacity())
	if err != nil {
		return wrapClass("crash-", err)
	}
	defer st.Close()
	img := hadImg
	if op.K == "snapc" || op.K == "snapr" || op.K == "save" {
		if hadImg == nil {
			// it may be there or not yet be there
			if err := st.CreateSnapshot(); err == nil {
				return nil
			}
			img = w.img
		}
	}
	if img == nil {
		return nil
	}
	w.R.Label("crash-with-snapshot")
	if err := st.CreateSnapshot(); err == nil {
		return violate("crash-snapshot-lost", "crash at write %d of %s: the snapshot is gone after reopening", op.Crash, op.K)
	}
	rd, err := st.GetSnapshotReader()
	if err != nil {
		return violate("crash-snapshot-reader", "GetSnapshotReader after a crash: %v", err)
	}
	return wrapClass("crash-", wholeImage(rd, img, 1<<20))
}

var c11Kinds = expand([]weighted{{"put", 14}, {"embed", 6}, {"pwo", 3}, {"del", 6}, {"delr", 1}, {"sync", 2}, {"side", 2}, {"gc", 2}, {"reopen", 2},
	{"snapc", 6}, {"snapd", 2}, {"snapr", 3}, {"read", 10}, {"save", 4}, {"junk", 1}, {"check", 1}, {"space", 1}})

func genC11Op(t *rapid.T, gs [2]Geom, ids []uint64) C11Op {
	w := 0
	if rapid.IntRange(0, 3).Draw(t, "w") == 3 {
		w = 1
	}
	g := gs[w]
	op := C11Op{W: w}
	mb := 8
	switch rapid.IntRange(0, 3).Draw(t, "big") {
	case 2:
		mb = 300
	case 3:
		mb = 2200
	}
	op.Op = genOp(t, c11Kinds, ids, g, min(mb, g.D))
	switch op.K {
	case "read":
		op.ID = uint64(rapid.IntRange(0, 4).Draw(t, "seekkind"))
		op.Off = uint32(rapid.IntRange(0, 8<<20).Draw(t, "off"))
		op.Size = rapid.OneOf(rapid.SampledFrom([]int{0, 1, 2, 511, 512, 513, 4096, 1 << 20, 1<<20 + 1, 1<<20 - 1, 3 << 20}), rapid.IntRange(0, 9000)).Draw(t, "size")
		op.N = rapid.IntRange(1, 4).Draw(t, "reads")
		op.Seed = rapid.IntRange(0, 11).Draw(t, "which")
	case "snapc", "snapr", "save", "junk":
		op.N = rapid.IntRange(0, 6).Draw(t, "n")
	}
	if rapid.IntRange(0, 4).Draw(t, "crash?") == 0 {
		op.Crash = rapid.IntRange(1, 4).Draw(t, "crash")
		op.Cut = rapid.SampledFrom([]int{0, 0, 1, 2, 60, 61, 1000}).Draw(t, "cut")
	}
	return op
}

func init() {
	register(&PBT[C11Case]{
		Id: "C11",
		RuleText: "rapid draws two stores in one directory (names chosen to look like each other's snapshots; up to 6 MB, so that snapshots have 1 to 7 regions of 1, 2 or 4 MB) and up to 45 operations on them: puts of up to more than a region, " +
			"deletes, collection, reopening, creating, reading (any seek and read size, readers kept across other operations), saving and deleting snapshots, and junk files with similar names. Every byte a reader returns is compared with a copy of " +
			"the store file made at the moment of creation; saved copies are opened and compared with the model of that moment; reading and deleting must leave the store file alone. In some operations the files are copied at a device write " +
			"(also with the snapshot file cut inside of what the operation appended) and reopened: the snapshot must still be exact. " +
			"One case in 15 is a history on a sparse store of up to 2 TB with objects in use around powers of two and regions of 1 to 32 MB: every range of the file that was ever written is read through the snapshot, and a sparse copy of them is opened. Non-trivial: a snapshot was read after a region it covers was overwritten.",
		Assume: []string{"region sizes are mostly 1, 2 and 4 MB instead of the default 32 MB, which only part of the far cases use (a package variable and part of the snapshot's header), to have several regions in a small store", "a crash keeps the device writes before it, in order"},
		Gen: func(t *rapid.T, tier string) C11Case {
			var c C11Case
			if rare(t, 15) {
				c.G = [2]Geom{{J: 2, D: 1}, {J: 2, D: 1}}
				c.Far = genC11Far(t)
				return c
			}
			for i := range c.G {
				c.G[i] = Geom{J: rapid.SampledFrom([]int{2, 3, 8, 40, 2060}).Draw(t, "J"), D: rapid.SampledFrom([]int{10, 200, 2100, 6000, 10000}).Draw(t, "D")}
			}
			c.Other = rapid.IntRange(0, len(c11Names)-1).Draw(t, "other")
			ids := genIDs(t)
			c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) C11Op { return genC11Op(t, c.G, ids) }), 2, 45).Draw(t, "ops")
			if rapid.IntRange(0, 3).Draw(t, "early") > 0 { // an early snapshot of the first store
				p := rapid.IntRange(0, min(6, len(c.Ops))).Draw(t, "snapat")
				snap := C11Op{Op: Op{K: "snapc", N: rapid.IntRange(0, 2).Draw(t, "shift")}}
				c.Ops = append(c.Ops[:p:p], append([]C11Op{snap}, c.Ops[p:]...)...)
			}
			return c
		},
		Exec:     execC11,
		Quick:    Budget{Cases: 3500, Seconds: 40},
		Thorough: Budget{Cases: 30000, Seconds: 600},
	})
}

func execC11(r *Run, c C11Case) error {
	if c.Far != nil {
		return execC11Far(r, *c.Far)
	}
	defer func() { nvm.DEFAULT_REGION_SHIFT = 25 }()
	var ws [2]*snapWorld
	names := [2]string{"s.lusf", c11Names[c.Other%len(c11Names)]}
	for i := range ws {
		w, err := newWorld(r, c.G[i], names[i])
		if err != nil {
			return err
		}
		defer w.Close()
		ws[i] = &snapWorld{World: w}
	}
	covered := false // some region of a snapshot was overwritten
	for i, op := range c.Ops {
		w := ws[op.W%2]
		var err error
		if op.Crash > 0 {
			err = w.crashStep(op)
		} else {
			err = w.step(op)
		}
		if err != nil {
			return at(err, i)
		}
		for _, f := range w.files {
			if st, e := os.Stat(f); e == nil && st.Size() > 1<<20 {
				covered = true
			}
		}
		if covered && (op.K == "read" || op.K == "save") {
			r.NonTrivial()
		}
	}
	for _, w := range ws {
		if err := w.checkAll(); err != nil {
			return err
		}
		if w.img != nil {
			if err := w.save(Op{N: 4}); err != nil {
				return err
			}
			if covered {
				r.NonTrivial()
			}
		}
		if err := w.Reopen(); err != nil {
			return err
		}
		if err := w.checkAll(); err != nil {
			return err
		}
		if w.img != nil {
			if err := w.save(Op{N: 5}); err != nil {
				return err
			}
		}
	}
	return nil
}

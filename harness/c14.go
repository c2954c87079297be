package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pkg/errors"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage"
	"pgregory.net/rapid"
)

// C14Create is one attempt to create a store.
type C14Create struct {
	Name  string
	Pre   string // what is at the path already: "", "junk", "empty", "dir", "store", "open" (a store which is open)
	Cap   uint64
	Ratio string // a number, parsed by the check ("NaN" and infinities are not JSON numbers)
}

// C14Op is a step in the life of one store.
//
// open, close, open2 (while it is open, maybe through another name), create2, mangle (open a damaged header, then repair
// it), closed (one operation on the closed store; N chooses it) or any operation of the model.
type C14Op struct {
	Alias int `json:",omitempty"`
	Op
}

// C14Case is a list of creations, and the life of one store.
type C14Case struct {
	Creates []C14Create
	Race    *C14Race `json:",omitempty"`
	G       Geom
	Ops     []C14Op
}

var c14Names = []string{"a.lusf", "alusf", "lusf", ".lusf", "a.lus", "a", "a.lusf2", "a.LUSF", "no/such/a.lusf", "a b%s\n.lusf", strings.Repeat("n", 250) + ".lusf", strings.Repeat("n", 251) + ".lusf"}

func parseRatio(s string) float64 {
	switch s {
	case "NaN":
		return math.NaN()
	case "+Inf":
		return math.Inf(1)
	case "-Inf":
		return math.Inf(-1)
	}
	var f float64
	fmt.Sscan(s, &f)
	return f
}

// journalSectors is the documented geometry; ok is false if no store of that kind can exist.
func (c C14Create) geometry() (g Geom, ok bool) {
	r := parseRatio(c.Ratio)
	if !strings.HasSuffix(c.Name, "lusf") || c.Cap%blk != 0 || !(r >= 0 && r < 1) {
		return g, false
	}
	j := (uint64(float64(c.Cap)*r) + blk - 1) / blk
	if j < 2 {
		j = 2
	}
	total := c.Cap / blk
	if total < 1+j+1 {
		return g, false
	}
	return Geom{J: int(j), D: int(total - 1 - j)}, true
}

func mustRead(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		harnessFail(err)
	}
	return b
}

func namesIn(dir string) []string {
	es, err := os.ReadDir(dir)
	if err != nil {
		harnessFail(err)
	}
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out
}

func execCreate(r *Run, n int, c C14Create) error {
	dir := filepath.Join(r.Dir, "c"+itoa(n))
	if err := os.Mkdir(dir, 0755); err != nil {
		harnessFail(err)
	}
	path := filepath.Join(dir, c.Name)
	fail := func(class, format string, a ...any) error {
		return violate(class, "creating %q (there before: %q) with capacity %d, ratio %s: %s", c.Name, c.Pre, c.Cap, c.Ratio, fmt.Sprintf(format, a...))
	}
	g, valid := c.geometry()
	if c.Cap >= 1<<50 || // more than any device here has
		len(filepath.Base(path)) > 255 || strings.Contains(c.Name, "/") {
		valid = false
	}
	var before []byte
	var open *storage.Storage
	model := map[uint64]*Obj{}
	if c.Pre != "" && (strings.Contains(c.Name, "/") || len(filepath.Base(path)) > 255) {
		c.Pre = ""
	}
	if c.Pre == "store" || c.Pre == "open" {
		tmp := filepath.Join(dir, "tmp.lusf")
		st, err := storage.CreateCannylsStorage(tmp, 40*blk, 0.2)
		if err != nil {
			return fail("create-failed", "an ordinary store: %v", err)
		}
		st.PutEmbed(lid(1), []byte("one"))
		model[1] = &Obj{Data: []byte("one"), Embed: true}
		st.Sync()
		if c.Pre == "open" && strings.HasSuffix(c.Name, "lusf") {
			open = st
		} else {
			st.Close()
		}
		if err := os.Rename(tmp, path); err != nil {
			harnessFail(err)
		}
	}
	var err error
	switch c.Pre {
	case "junk":
		err = os.WriteFile(path, payload(3, 5000), 0644)
	case "empty":
		err = os.WriteFile(path, nil, 0644)
	case "dir":
		err = os.Mkdir(path, 0755)
	}
	if err != nil {
		harnessFail(err)
	}
	if c.Pre != "" && c.Pre != "dir" {
		before = mustRead(path)
	}
	names := namesIn(dir)
	st, err := storage.CreateCannylsStorage(path, c.Cap, parseRatio(c.Ratio))
	if c.Pre != "" {
		valid = false
	}
	if !valid {
		if err == nil {
			st.Close()
			return fail("create-accepted", "succeeded")
		}
		r.Label("create-refused")
		if st != nil {
			return fail("create-accepted", "failed with %v, but gave a store", err)
		}
		if now := namesIn(dir); fmt.Sprint(now) != fmt.Sprint(names) {
			return fail("create-left-file", "refused with %v, but the directory has %q now, before: %q", err, now, names)
		}
		if before != nil && !bytes.Equal(before, mustRead(path)) {
			return fail("create-overwrote", "refused with %v, but the file is changed", err)
		}
		if c.Pre == "store" || open != nil {
			if open != nil {
				w := &World{R: r, Path: path, St: open, Model: model}
				if err := w.checkAll(); err != nil {
					return fail("create-disturbed", "the open store: %v", err)
				}
				open.Close()
			}
			if strings.HasSuffix(c.Name, "lusf") {
				st, err := openBounded(path, 40*blk)
				if err != nil {
					return fail("create-disturbed", "the store which was there: %v", err)
				}
				defer st.Close()
				w := &World{R: r, Path: path, St: st, Model: model}
				return w.checkAll()
			}
		}
		if c.Pre == "" && !strings.Contains(c.Name, "/") && len(filepath.Base(path)) <= 255 && strings.HasSuffix(c.Name, "lusf") {
			// the name must be usable
			st, err := storage.CreateCannylsStorage(path, 40*blk, 0.2)
			if err != nil {
				return fail("create-not-released", "a valid creation at the same path afterwards: %v", err)
			}
			st.Close()
		}
		return nil
	}
	if err != nil {
		return fail("create-failed", "%v", err)
	}
	r.Label("create-ok")
	defer st.Close()
	u := st.Usage()
	if u.JournalCapacity != uint64(g.J)*blk || u.DataCapacity != uint64(g.D)*blk || u.FileCounts != 0 || u.DataFreeBytes != uint64(g.D)*blk {
		return fail("geometry", "%d/%d bytes of journal and data expected, got %+v", g.J*blk, g.D*blk, u)
	}
	h := st.Header()
	if h.StorageSize() != c.Cap || h.JournalRegionSize != u.JournalCapacity || h.DataRegionSize != u.DataCapacity {
		return fail("geometry", "the header says %d bytes in all, %d journal, %d data", h.StorageSize(), h.JournalRegionSize, h.DataRegionSize)
	}
	if _, err := storage.OpenCannylsStorage(path); err == nil {
		return fail("opened-twice", "the new store can be opened a second time")
	}
	// the whole data region is usable
	w := &World{R: r, Path: path, G: g, St: st, Model: map[uint64]*Obj{}, Ring: int64(g.J-1) * blk, Autogc: true}
	defer w.Close()
	n2 := g.D
	if n2 > 3000 {
		n2 = 3000
	}
	if err := w.Step(Op{K: "put", ID: 7, Size: n2*blk - 2, Seed: n}); err != nil {
		return err
	}
	if w.Model[7] == nil {
		return fail("geometry", "an object as big as the data region (%d blocks) does not fit", g.D)
	}
	w.Close()
	raw := mustRead(path)
	if !headerValid(raw) || uint64(raw[34])<<8|uint64(raw[35])|uint64(raw[33])<<16|uint64(raw[32])<<24 != uint64(g.J)*blk ||
		uint64(raw[42])<<8|uint64(raw[43])|uint64(raw[41])<<16|uint64(raw[40])<<24 != uint64(g.D)*blk {
		return fail("geometry", "the file's header is % x", raw[:44])
	}
	if len(raw) > int(c.Cap) {
		return fail("geometry", "the file has %d bytes", len(raw))
	}
	if w.St, err = openBounded(path, c.Cap); err != nil {
		return err
	}
	return w.checkAll()
}

// closedOps are the operations tried on a closed store: each must say that the store is closed, or give its empty answer.
var closedOps = []struct {
	name string
	do   func(st *storage.Storage, w *World) error
}{
	{"Put", func(st *storage.Storage, w *World) error {
		_, err := st.Put(lid(1), mkLump([]byte("x"), 0))
		return wantClosed(err)
	}},
	{"PutEmbed", func(st *storage.Storage, w *World) error {
		_, err := st.PutEmbed(lid(1), []byte("x"))
		return wantClosed(err)
	}},
	{"PutWithOffset", func(st *storage.Storage, w *World) error {
		return wantClosed(st.PutWithOffset(lid(1), mkLump([]byte("x"), 0), 0, 0))
	}},
	{"Get", func(st *storage.Storage, w *World) error { _, err := st.Get(lid(1)); return wantClosed(err) }},
	{"GetWithOffset", func(st *storage.Storage, w *World) error {
		_, err := st.GetWithOffset(lid(1), 0, 1)
		return wantClosed(err)
	}},
	{"GetSize", func(st *storage.Storage, w *World) error { _, err := st.GetSize(lid(1)); return wantClosed(err) }},
	{"GetSizeOnDisk", func(st *storage.Storage, w *World) error { _, err := st.GetSizeOnDisk(lid(1)); return wantClosed(err) }},
	{"GetRecord", func(st *storage.Storage, w *World) error { _, err := st.GetRecord(lid(1)); return wantClosed(err) }},
	{"WriteRecord", func(st *storage.Storage, w *World) error {
		return wantClosed(st.WriteRecord(lid(1), portion.NewDataPortion(0, 1)))
	}},
	{"Delete", func(st *storage.Storage, w *World) error {
		_, _, err := st.Delete(lid(1))
		return wantClosed(err)
	}},
	{"DeleteRange", func(st *storage.Storage, w *World) error {
		return wantClosed(st.DeleteRange(lid(0), lid(100), true))
	}},
	{"First", func(st *storage.Storage, w *World) error { _, err := st.First(lid(0)); return wantClosed(err) }},
	{"CreateSnapshot", func(st *storage.Storage, w *World) error { return wantClosed(st.CreateSnapshot()) }},
	{"DeleteSnapshot", func(st *storage.Storage, w *World) error { return wantClosed(st.DeleteSnapshot()) }},
	{"GetSnapshotReader", func(st *storage.Storage, w *World) error {
		_, err := st.GetSnapshotReader()
		return wantClosed(err)
	}},
	{"List", func(st *storage.Storage, w *World) error { return wantEmpty(len(st.List())) }},
	{"ListRange", func(st *storage.Storage, w *World) error { return wantEmpty(len(st.ListRange(lid(0), lid(100), 100))) }},
	{"MinId", func(st *storage.Storage, w *World) error { _, have := st.MinId(); return wantNone(have) }},
	{"MaxId", func(st *storage.Storage, w *World) error { _, have := st.MaxId(); return wantNone(have) }},
	{"GenerateEmptyId", func(st *storage.Storage, w *World) error { _, have := st.GenerateEmptyId(); return wantNone(have) }},
	{"GetAllocationStatus", func(st *storage.Storage, w *World) error { return wantEmpty(len(st.GetAllocationStatus())) }},
	{"JournalSnapshot", func(st *storage.Storage, w *World) error { return wantEmpty(len(st.JournalSnapshot().Entries)) }},
	{"Usage", func(st *storage.Storage, w *World) error { st.Usage(); return nil }},
	{"Header", func(st *storage.Storage, w *World) error {
		if h := st.Header(); h.StorageSize() != w.G.capacity() {
			return fmt.Errorf("a size of %d", h.StorageSize())
		}
		return nil
	}},
	{"Sync", func(st *storage.Storage, w *World) error { st.Sync(); return nil }},
	{"Flush", func(st *storage.Storage, w *World) error { st.Flush(); return nil }},
	{"RunSideJobOnce", func(st *storage.Storage, w *World) error { st.RunSideJobOnce(4); return nil }},
	{"JournalGC", func(st *storage.Storage, w *World) error { st.JournalGC(); return nil }},
	{"SetAutomaticGcMode", func(st *storage.Storage, w *World) error { st.SetAutomaticGcMode(true); return nil }},
	{"Close", func(st *storage.Storage, w *World) error { st.Close(); return nil }},
}

func wantClosed(err error) error {
	if errors.Cause(err) != internalerror.StorageClosed {
		return fmt.Errorf("the error %v", err)
	}
	return nil
}

func wantEmpty(n int) error {
	if n != 0 {
		return fmt.Errorf("%d entries", n)
	}
	return nil
}

func wantNone(have bool) error {
	if have {
		return fmt.Errorf("an id")
	}
	return nil
}

var c14Kinds = expand([]weighted{{"open", 6}, {"close", 6}, {"open2", 4}, {"create2", 2}, {"mangle", 3}, {"closed", 14}, {"put", 4}, {"embed", 4}, {"del", 2}, {"sync", 1}, {"side", 1}, {"gc", 1}, {"check", 1}})

func genC14(t *rapid.T, tier string) C14Case {
	var c C14Case
	ratios := []string{"0", "0.01", "0.1", "0.5", "0.9", "0.99", "1", "1.5", "-0.1", "-1", "NaN", "+Inf", "-Inf", "-0", "0.9999999", "1e300", "1e-300"}
	c.Creates = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) C14Create {
		var x C14Create
		x.Name = "a.lusf"
		if rapid.IntRange(0, 2).Draw(t, "name?") == 0 {
			x.Name = rapid.SampledFrom(c14Names).Draw(t, "name")
		}
		if rapid.IntRange(0, 3).Draw(t, "pre?") == 0 {
			x.Pre = rapid.SampledFrom([]string{"junk", "empty", "dir", "store", "open"}).Draw(t, "pre")
		}
		switch rapid.IntRange(0, 5).Draw(t, "capkind") {
		case 0, 1:
			x.Cap = uint64(rapid.IntRange(0, 12).Draw(t, "blocks")) * blk
		case 2, 3:
			x.Cap = uint64(rapid.IntRange(0, 4000).Draw(t, "blocks")) * blk
		case 4:
			x.Cap = uint64(rapid.IntRange(0, 20000).Draw(t, "bytes"))
		default:
			x.Cap = rapid.SampledFrom([]uint64{1 << 50, 1 << 62, 1 << 63, 1<<63 - 512, 1<<64 - 512, 1<<64 - 1}).Draw(t, "huge")
		}
		x.Ratio = rapid.SampledFrom(ratios).Draw(t, "ratio")
		if rapid.IntRange(0, 1).Draw(t, "anyratio") == 0 {
			x.Ratio = fmt.Sprintf("%.5f", rapid.Float64Range(0, 1).Draw(t, "r"))
		}
		return x
	}), 0, 4).Draw(t, "creates")
	if rare(t, 4) {
		c.Race = &C14Race{Rounds: uniform(t, 1, 6, "rounds"), Openers: uniform(t, 0, 6, "openers"), Hold: rapid.Bool().Draw(t, "hold")}
		for i := uniform(t, 2, 6, "creators"); i > 0; i-- {
			c.Race.Caps = append(c.Race.Caps, uint64(uniform(t, 12, 60, "blocks")))
		}
	}
	c.G = Geom{J: rapid.IntRange(2, 8).Draw(t, "J"), D: rapid.IntRange(1, 12).Draw(t, "D")}
	ids := genIDs(t)
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) C14Op {
		op := C14Op{Op: genOp(t, c14Kinds, ids, c.G, 4)}
		switch op.K {
		case "closed":
			op.N = rapid.IntRange(0, len(closedOps)-1).Draw(t, "closedop")
		case "open2", "mangle", "create2":
			op.Alias = rapid.IntRange(0, 3).Draw(t, "alias")
			op.N = rapid.IntRange(0, 43).Draw(t, "byte")
		}
		return op
	}), 0, 40).Draw(t, "ops")
	return c
}

func init() {
	register(&PBT[C14Case]{
		Id: "C14",
		RuleText: "rapid draws up to 4 creations (names with and without the suffix, in missing directories, too long, where a file, directory, store or open store exists; capacities from 0 to 2^64-1, aligned or not; ratios from -inf to +inf and NaN): " +
			"valid by the documented rules must succeed with exactly the stated partition, be fully usable and be locked; all others must fail, leave the directory as it was and the path usable. One case in four lets 2 to 6 creators (each with its own capacity) and then up to 6 openers race for one path: exactly one creation succeeds, with its own geometry, openers have the store one at a time, nothing stored is lost. Then it draws the life of one store: opening, closing, " +
			"opening it again while it is open (also through a symbolic link, a hard link and another spelling), creating over it, opening it with a damaged header, operations while it is open (judged by the model) and all 30 operations on the closed store " +
			"(which must report so, not touch the file and not hang). Non-trivial: at least 2 operations on a closed store and a refused second opening or creation.",
		Gen: genC14,
		Exec: func(r *Run, c C14Case) error {
			for i, x := range c.Creates {
				if err := execCreate(r, i, x); err != nil {
					return err
				}
			}
			if c.Race != nil {
				if err := execRace(r, *c.Race); err != nil {
					return err
				}
			}
			w, err := newWorld(r, c.G, "s.lusf")
			if err != nil {
				return err
			}
			defer w.Close()
			// the other names of the store
			aliases := []string{w.Path, filepath.Join(r.Dir, "link.lusf"), filepath.Join(r.Dir, "hard.lusf"), filepath.Join(r.Dir, "..", filepath.Base(r.Dir), "s.lusf")}
			if err := os.Symlink(w.Path, aliases[1]); err != nil {
				harnessFail(err)
			}
			if err := os.Link(w.Path, aliases[2]); err != nil {
				harnessFail(err)
			}
			closedSeen, refusedSeen := 0, 0
			var last *storage.Storage // the closed store
			for i, op := range c.Ops {
				if err := c14Step(r, w, &last, aliases, op, &closedSeen, &refusedSeen); err != nil {
					return at(err, i)
				}
			}
			if closedSeen >= 2 && refusedSeen > 0 {
				r.NonTrivial()
			}
			if w.St == nil {
				if w.St, err = openBounded(w.Path, w.G.capacity()); err != nil {
					return err
				}
			}
			return w.checkAll()
		},
		Quick:    Budget{Cases: 7500, Seconds: 40},
		Thorough: Budget{Cases: 60000, Seconds: 500},
	})
}

func c14Step(r *Run, w *World, last **storage.Storage, aliases []string, op C14Op, closedSeen, refusedSeen *int) error {
	switch op.K {
	case "open":
		if w.St != nil {
			return nil
		}
		st, err := openBounded(w.Path, w.G.capacity())
		if err != nil {
			return err
		}
		w.St = st
		return w.checkAll()
	case "close":
		if w.St != nil {
			*last = w.St
			w.Close()
			r.Label("close")
		}
	case "open2":
		if w.St == nil {
			return nil
		}
		if st, err := storage.OpenCannylsStorage(aliases[op.Alias%4]); err == nil {
			st.Close()
			return violate("opened-twice", "the open store could be opened a second time (as %s)", aliases[op.Alias%4])
		}
		*refusedSeen++
		r.Label("second-open-refused")
		return w.checkAll()
	case "create2":
		before := mustRead(w.Path)
		st, err := storage.CreateCannylsStorage(aliases[op.Alias%4], 40*blk, 0.2)
		if err == nil {
			st.Close()
			return violate("create-accepted", "created a store over the existing one")
		}
		if !bytes.Equal(before, mustRead(w.Path)) {
			return violate("create-overwrote", "a refused creation changed the existing store")
		}
		*refusedSeen++
		if w.St != nil {
			return w.checkAll()
		}
	case "mangle":
		if w.St != nil {
			return nil
		}
		raw := mustRead(w.Path)
		if len(raw) < 600 {
			harnessFail(fmt.Errorf("short store file"))
		}
		bad := append([]byte(nil), raw...)
		p := []int{0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 28, 29, 35, 36, 37, 43}[op.N%16]
		bad[p] ^= 0xa5
		if op.Alias == 3 { // the journal instead: the head points outside
			bad = append([]byte(nil), raw...)
			copy(bad[blk:], []byte{0xff, 0xff, 0xff})
		}
		if headerValid(bad) && op.Alias != 3 {
			return nil
		}
		// written in place: the hard link must stay one
		write := func(b []byte) {
			f, err := os.OpenFile(w.Path, os.O_WRONLY, 0)
			if err == nil {
				_, err = f.WriteAt(b, 0)
				f.Close()
			}
			if err != nil {
				harnessFail(err)
			}
		}
		write(bad)
		st, err, viol := tryOpen(w.Path, w.G.capacity())
		if viol != nil {
			return viol
		}
		if err == nil {
			st.Close()
			return violate("damaged-accepted", "a store with a damaged header or head pointer opened (byte %d)", p)
		}
		if !bytes.Equal(bad, mustRead(w.Path)) {
			return violate("failed-open-wrote", "a failed open changed the file")
		}
		write(raw)
		r.Label("failed-open")
		if st, err := openBounded(w.Path, w.G.capacity()); err != nil {
			return violate("not-released", "after a failed open, the repaired store can not be opened: %v", err)
		} else {
			w.St = st
		}
		return w.checkAll()
	case "closed":
		if *last == nil {
			return nil
		}
		st := *last
		var before []byte
		if w.St == nil {
			before = mustRead(w.Path)
		}
		names := namesIn(r.Dir)
		x := closedOps[op.N%len(closedOps)]
		if err := x.do(st, w); err != nil {
			return violate("closed-store", "%s on a closed store gave %v", x.name, err)
		}
		*closedSeen++
		r.Label("closed-op")
		if now := namesIn(r.Dir); fmt.Sprint(names) != fmt.Sprint(now) {
			return violate("closed-store-wrote", "%s on a closed store changed the directory: %q, before: %q", x.name, now, names)
		}
		if before != nil {
			if !bytes.Equal(before, mustRead(w.Path)) {
				return violate("closed-store-wrote", "%s on a closed store changed the file", x.name)
			}
			return nil
		}
		return w.checkAll() // the store was opened again: the old handle must not disturb it
	default:
		if w.St == nil {
			return nil
		}
		return w.Step(op.Op)
	}
	return nil
}

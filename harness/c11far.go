package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"

	"github.com/thesues/cannyls-go/nvm"
	"pgregory.net/rapid"
)

// C11Far is a history on one store of several GB to TB in a sparse file. Snaps[i] happens before operation At: "snapc", "snapd",
// "read" (every range of the file that was ever written, through the snapshot), "save" (those ranges into a sparse file, which is
// opened as a store), "reopen".
type C11Far struct {
	OpsCase
	Snaps []FarSnap
}

type FarSnap struct {
	At    int
	K     string
	Shift int `json:",omitempty"`
	Chunk int `json:",omitempty"`
}

// genC11Many draws a store with an object in each of up to 380 regions, most of which are written while a snapshot exists.
func genC11Many(t *rapid.T) *C11Far {
	n := uniform(t, 40, 380, "regions")
	c := &C11Far{OpsCase: OpsCase{G: Geom{J: 16 + n/8, D: n * 2048}}}
	for i := 0; i < n; i++ {
		c.G.Place = append(c.G.Place, Placed{ID: uint64(i + 1), Start: uint64(i*2048 + uniform(t, 0, 2000, "start")), Len: 1})
	}
	seed := rapid.Uint64Range(0, 1<<20).Draw(t, "order")
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	sort.Slice(order, func(i, j int) bool { return mix(seed, uint64(order[i])) < mix(seed, uint64(order[j])) })
	for _, i := range order[:n-uniform(t, 0, n/3, "untouched")] {
		c.Ops = append(c.Ops, Op{K: "pwo", ID: uint64(i + 1), Off: uint32(i % 400), Size: 1 + i%100, Seed: 1 + i%200})
	}
	k := len(c.Ops)
	c.Snaps = []FarSnap{{At: uniform(t, 0, 20, "first"), K: "snapc", Shift: 20}}
	if rapid.Bool().Draw(t, "reopen") {
		c.Snaps = append(c.Snaps, FarSnap{At: k - uniform(t, 1, k/3, "at"), K: "reopen"})
	}
	c.Snaps = append(c.Snaps, FarSnap{At: k, K: "read", Chunk: 4096}, FarSnap{At: k, K: "reopen"}, FarSnap{At: k, K: "save", Chunk: 4096})
	return c
}

func genC11Far(t *rapid.T) *C11Far {
	if rare(t, 5) {
		return genC11Many(t)
	}
	c := &C11Far{OpsCase: genFar(t, expand([]weighted{{"put", 12}, {"embed", 3}, {"pwo", 6}, {"del", 6}, {"delr", 1}, {"sync", 1}, {"side", 2}, {"gc", 1}, {"flush", 1}}), 40)}
	for i := range c.G.Place {
		// every byte of the journal and the objects is compared again and again
		c.G.Place[i].Len = min(c.G.Place[i].Len, 200)
	}
	n := len(c.Ops)
	shift := rapid.SampledFrom([]int{20, 20, 21, 22, 23, 25})
	chunk := rapid.SampledFrom([]int{512, 513, 1 << 12, 1 << 16, 1 << 20})
	c.Snaps = append(c.Snaps, FarSnap{At: rapid.IntRange(0, n/2).Draw(t, "first"), K: "snapc", Shift: shift.Draw(t, "shift")})
	c.Snaps = append(c.Snaps, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FarSnap {
		k := rapid.SampledFrom([]string{"snapc", "snapd", "read", "read", "read", "save", "save", "reopen"}).Draw(t, "snap")
		return FarSnap{At: rapid.IntRange(0, n).Draw(t, "at"), K: k, Shift: shift.Draw(t, "shift"), Chunk: chunk.Draw(t, "chunk")}
	}), 0, 6).Draw(t, "snaps")...)
	c.Snaps = append(c.Snaps, FarSnap{At: n, K: "save", Chunk: chunk.Draw(t, "chunk")})
	sort.SliceStable(c.Snaps, func(i, j int) bool { return c.Snaps[i].At < c.Snaps[j].At })
	return c
}

// span is a range of the store file.
type span struct{ off, end int64 }

type farImage struct {
	size  int64
	spans []span
	data  [][]byte
	model map[uint64]*Obj
}

// at is what the snapshot must hold in a range: what was there, or zeros.
func (m *farImage) at(s span) []byte {
	out := make([]byte, s.end-s.off)
	for i, x := range m.spans {
		if x.off < s.end && s.off < x.end {
			lo, hi := max(x.off, s.off), min(x.end, s.end)
			copy(out[lo-s.off:hi-s.off], m.data[i][lo-x.off:])
		}
	}
	return out
}

type farWorld struct {
	*World
	written []span
	img     *farImage
	rd      *nvm.SnapshotReader
	saved   int
}

// wrote notes a range, merging what lies close together.
func (w *farWorld) wrote(off, end int64) {
	s := span{off, end}
	var keep []span
	for _, x := range w.written {
		if x.off <= s.end+blk && s.off <= x.end+blk {
			s = span{min(s.off, x.off), max(s.end, x.end)}
		} else {
			keep = append(keep, x)
		}
	}
	w.written = append(keep, s)
	sort.Slice(w.written, func(i, j int) bool { return w.written[i].off < w.written[j].off })
}

func (w *farWorld) take() error {
	f, err := os.Open(w.Path)
	if err != nil {
		harnessFail(err)
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil {
		harnessFail(err)
	}
	w.img = &farImage{size: st.Size(), model: map[uint64]*Obj{}}
	for id, o := range w.Model {
		w.img.model[id] = o
	}
	for _, s := range w.written {
		b := make([]byte, s.end-s.off)
		n, err := f.ReadAt(b, s.off)
		if err != nil && err != io.EOF {
			harnessFail(err)
		}
		w.img.spans = append(w.img.spans, span{s.off, s.off + int64(n)})
		w.img.data = append(w.img.data, b[:n])
	}
	return nil
}

// readAll reads every range that was ever written, with some bytes around it, through the snapshot.
func (w *farWorld) readAll(chunk int, each func(off int64, b []byte)) error {
	if w.img == nil {
		return nil
	}
	if w.rd == nil {
		var err error
		if w.rd, err = w.St.GetSnapshotReader(); err != nil {
			return violate("snapshot-reader", "GetSnapshotReader: %v", err)
		}
	}
	if end, err := w.rd.Seek(0, io.SeekEnd); err != nil || end != w.img.size {
		return violate("snapshot-seek", "the snapshot ends at %d, %v; the file had %d bytes", end, err, w.img.size)
	}
	for _, s := range w.written {
		s = span{max(0, s.off-700), min(w.img.size, s.end+700)}
		if s.off >= s.end {
			continue
		}
		if pos, err := w.rd.Seek(s.off, io.SeekStart); err != nil || pos != s.off {
			return violate("snapshot-seek", "Seek(%d) of %d gave %d, %v", s.off, w.img.size, pos, err)
		}
		got := make([]byte, s.end-s.off)
		for n := 0; n < len(got); {
			k, err := w.rd.Read(got[n:min(len(got), n+chunk)])
			n += k
			if n < len(got) && (err != nil || k == 0) {
				return violate("snapshot-read", "Read at %d of %d gave %d bytes, %v", s.off+int64(n), w.img.size, k, err)
			}
		}
		if want := w.img.at(s); !bytes.Equal(got, want) {
			return violate("snapshot-content", "the snapshot's bytes from %d on (file of %d bytes, region shift %d) differ from the device at its creation: %s", s.off, w.img.size, nvm.DEFAULT_REGION_SHIFT, diffBytes(got, want))
		}
		if each != nil {
			each(s.off, got)
		}
	}
	return nil
}

func (w *farWorld) save(chunk int) error {
	if w.img == nil {
		return nil
	}
	w.saved++
	dir := filepath.Join(w.R.Dir, fmt.Sprintf("saved%d", w.saved))
	if err := os.Mkdir(dir, 0755); err != nil {
		harnessFail(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "s.lusf")
	f, err := os.Create(path)
	if err != nil {
		harnessFail(err)
	}
	defer f.Close()
	if err := w.readAll(chunk, func(off int64, b []byte) {
		if _, err := f.WriteAt(b, off); err != nil {
			harnessFail(err)
		}
	}); err != nil {
		return err
	}
	if err := f.Truncate(w.img.size); err != nil {
		harnessFail(err)
	}
	if err := opensAs(w.R, path, w.G, w.img.model); err != nil {
		return err
	}
	w.R.Label("far-saved-and-opened")
	return nil
}

func execC11Far(r *Run, c C11Far) error {
	defer func() { nvm.DEFAULT_REGION_SHIFT = 25 }()
	w0, err := newWorld(r, c.G, "s.lusf")
	if err != nil {
		return err
	}
	w := &farWorld{World: w0}
	defer func() { w.Close() }() // also after a failure: the snapshot of a case can have hundreds of MB
	if len(w.G.Place) == 0 {
		w.Close()
		return nil // no sparse files here
	}
	w.wrote(0, int64(1+w.G.J)*blk)
	setHook(func(io *nvm.VerifIO) error {
		if io.Op == "write" && !io.After && io.Path == w.Path {
			w.wrote(io.Off, io.Off+int64(len(io.Buf)))
			if region := io.Off >> 20 << 20; len(w.G.Place) >= 40 { // what the copy of the region begins with
				w.wrote(region, region+1024)
			}
		}
		return nil
	})
	defer setHook(nil)
	snaps := c.Snaps
	far := false
	for i := 0; i <= len(c.Ops); i++ {
		for ; len(snaps) > 0 && snaps[0].At <= i; snaps = snaps[1:] {
			s := snaps[0]
			switch s.K {
			case "snapc":
				nvm.DEFAULT_REGION_SHIFT = uint16(min(max(s.Shift, 20), 25))
				err := w.St.CreateSnapshot()
				if (err == nil) == (w.img != nil) {
					return violate("snapshot", "CreateSnapshot with a snapshot present %v: %v", w.img != nil, err)
				}
				if err == nil {
					w.take()
				}
			case "snapd":
				if err := w.St.DeleteSnapshot(); err != nil {
					return violate("snapshot", "DeleteSnapshot with a snapshot present %v: %v", w.img != nil, err)
				}
				w.img, w.rd = nil, nil
			case "read":
				if err := w.readAll(max(s.Chunk, 1), nil); err != nil {
					return at(err, i)
				}
			case "save":
				if err := w.save(max(s.Chunk, 1)); err != nil {
					return at(err, i)
				}
			case "reopen":
				w.rd = nil
				if err := w.Reopen(); err != nil {
					return at(err, i)
				}
			}
			if w.img != nil && w.R.labels["far-saved-and-opened"] > 0 && far {
				r.NonTrivial()
			}
		}
		if i == len(c.Ops) {
			break
		}
		if err := w.Step(c.Ops[i]); err != nil {
			return at(err, i)
		}
		if w.img != nil {
			for _, s := range w.written {
				if s.end > 1<<32 {
					far = true
				}
			}
		}
	}
	r.Label("far-snapshots")
	if len(c.G.Place) >= 40 {
		r.Label("many-regions")
	}
	if far {
		r.Label("far-snapshot-beyond-4GB")
	}
	return w.checkAll()
}

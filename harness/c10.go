package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"unsafe"

	uuid "github.com/satori/go.uuid"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/nvm"
	"pgregory.net/rapid"
)

// DevOp is one operation on a view of a device. V selects the view, offsets and lengths are in bytes.
//
//	read N | write N | seek Off (whence W) | readat N Off | writeat N Off | sync | split Off | pos | snapc | snapd | reopen | open2 | create2
type DevOp struct {
	K   string
	V   int   `json:",omitempty"`
	N   int   `json:",omitempty"`
	Off int64 `json:",omitempty"`
	W   int   `json:",omitempty"`
	S   int   `json:",omitempty"`
}

// DevCase is a device and a history.
type DevCase struct {
	Kind    string // mem, vec, file, snap
	Sectors int
	Ops     []DevOp
}

type devView struct {
	d          nvm.NonVolatileMemory
	start, end int
	cur        int
}

type devWorld struct {
	r     *Run
	c     DevCase
	path  string
	views []devView
	model []byte
	high  int // end of the highest written byte
	snap  *nvm.SnapNVM
	bad   error // reported by the device hook
}

func (w *devWorld) open(first bool) error {
	var d nvm.NonVolatileMemory
	var err error
	size := uint64(len(w.model))
	switch w.c.Kind {
	case "mem":
		d, err = nvm.New(size)
	case "vec":
		d, err = nvm.NewFromVec(append([]byte(nil), w.model...))
	default:
		var f *nvm.FileNVM
		if first {
			f, err = nvm.CreateIfAbsent(w.path, size)
		} else {
			f, _, err = nvm.Open(w.path)
		}
		if err == nil {
			d = f
			if w.c.Kind == "snap" {
				w.snap, err = nvm.NewSnapshotNVM(f)
				d = w.snap
			}
		}
	}
	if err != nil {
		return violate("device-open", "opening the device (first: %v): %v", first, err)
	}
	w.views = []devView{{d, 0, int(size), 0}}
	if d.Capacity() != size || d.Position() != 0 {
		return violate("device-capacity", "a device of %d bytes has capacity %d, position %d", size, d.Capacity(), d.Position())
	}
	return nil
}

// wrote applies n bytes of buf at absolute position a.
func (w *devWorld) wrote(a int, buf []byte) {
	copy(w.model[a:], buf)
	if len(buf) > 0 && a+len(buf) > w.high {
		w.high = a + len(buf)
	}
}

func (w *devWorld) isFile() bool { return w.c.Kind == "file" || w.c.Kind == "snap" }

func aligned(n int) bool { return n%512 == 0 }

func (w *devWorld) step(op DevOp) error {
	v := &w.views[op.V%len(w.views)]
	size := v.end - v.start
	switch op.K {
	case "read", "readat":
		buf := alignedCopy(make([]byte, op.N))
		for i := range buf {
			buf[i] = 0xEE
		}
		at, off := v.cur, int64(v.cur)
		var n int
		var err error
		if op.K == "readat" {
			at, off = int(op.Off), op.Off
			n, err = v.d.ReadAt(buf, off)
		} else {
			n, err = v.d.Read(buf)
		}
		valid := aligned(op.N) && aligned(at) && at >= 0 && at <= size
		if err != nil && err != io.EOF {
			if valid {
				return violate("device-read", "%s of %d bytes at %d of %d failed: %v", op.K, op.N, at, size, err)
			}
			w.r.Label("refused")
			return nil
		}
		if err == nil || n > 0 {
			if at < 0 || at > size || n > size-at && n > 0 || n > op.N || n < 0 {
				return violate("device-read", "%s of %d bytes at %d of %d gave %d, %v", op.K, op.N, at, size, n, err)
			}
			if !bytes.Equal(buf[:n], w.model[v.start+at:v.start+at+n]) {
				return violate("device-content", "%s at %d of view [%d,%d): byte %d is not what was last written", op.K, at, v.start, v.end, at+diffAt(buf[:n], w.model[v.start+at:v.start+at+n]))
			}
		}
		if valid {
			wantN := min(op.N, size-at)
			// positional reads behind the last written byte may end early
			if n != wantN && !(n < wantN && w.isFile() && op.K == "readat" && v.start+at+n >= w.high) {
				return violate("device-read", "%s of %d bytes at %d of %d gave only %d bytes, %v", op.K, op.N, at, size, n, err)
			}
			if n == 0 && op.N > 0 && err == nil {
				return violate("device-read", "%s of %d bytes at %d of %d gave nothing and no error", op.K, op.N, at, size)
			}
		}
		if op.K == "read" {
			v.cur += n
			if !aligned(v.cur) { // a memory device lets this happen
				if p, err := v.d.Seek(0, io.SeekStart); p != 0 || err != nil {
					return violate("device-seek", "Seek(0) gave %d, %v", p, err)
				}
				v.cur = 0
			}
		}
	case "write", "writeat":
		buf := alignedCopy(RecSpec{Size: op.N, Seed: op.S}.payload())
		at := v.cur
		var n int
		var err error
		if op.K == "writeat" {
			at = int(op.Off)
			n, err = v.d.WriteAt(buf, op.Off)
		} else {
			n, err = v.d.Write(buf)
		}
		inside := aligned(op.N) && aligned(at) && at >= 0 && at <= size && op.N <= size-at
		if err != nil {
			// a positional write of nothing at the very end may be called the end of the device
			if inside && !(op.N == 0 && at == size) {
				return violate("device-write", "%s of %d bytes at %d of %d failed: %v", op.K, op.N, at, size, err)
			}
			w.r.Label("refused")
			return nil // refused: the whole device is compared below
		}
		if !aligned(op.N) || !aligned(at) || at < 0 || at > size {
			return violate("device-misaligned", "%s of %d bytes at %d of %d was accepted", op.K, op.N, at, size)
		}
		wantN := min(op.N, size-at)
		if n != wantN {
			return violate("device-write", "%s of %d bytes at %d of %d wrote %d", op.K, op.N, at, size, n)
		}
		w.wrote(v.start+at, buf[:n])
		if op.K == "write" {
			v.cur += n
		}
	case "seek":
		base := 0
		switch op.W {
		case io.SeekCurrent:
			base = v.cur
		case io.SeekEnd:
			base = size
		}
		p, err := v.d.Seek(op.Off, op.W)
		abs := base + int(op.Off)
		valid := op.W <= 2 && op.Off%512 == 0 && abs >= 0 && abs <= size
		if valid != (err == nil) || valid && p != int64(abs) {
			return violate("device-seek", "Seek(%d,%d) from %d of %d gave %d, %v", op.Off, op.W, v.cur, size, p, err)
		}
		if valid {
			v.cur = abs
		} else {
			w.r.Label("refused")
		}
	case "split":
		l, rt, err := v.d.Split(uint64(op.Off))
		valid := op.Off%512 == 0 && op.Off >= 0 && int(op.Off) <= size
		if valid != (err == nil) {
			return violate("device-split", "Split(%d) of %d: %v", op.Off, size, err)
		}
		if !valid {
			w.r.Label("refused")
			return nil
		}
		m := v.start + int(op.Off)
		nv := []devView{{l, v.start, m, 0}, {rt, m, v.end, 0}}
		for _, x := range nv {
			if x.d.Capacity() != uint64(x.end-x.start) || x.d.Position() != 0 {
				return violate("device-split", "Split(%d) of %d gave a view of %d bytes at %d", op.Off, size, x.d.Capacity(), x.d.Position())
			}
		}
		w.views = append(w.views, nv...)
		if len(w.views) > 9 {
			w.views = append(w.views[:1:1], w.views[len(w.views)-6:]...)
		}
		w.r.Label("split")
	case "sync":
		if err := v.d.Sync(); err != nil {
			return violate("device-sync", "Sync: %v", err)
		}
	case "snapc", "snapd":
		if w.snap == nil {
			return nil
		}
		if op.K == "snapc" {
			w.snap.CreateSnapshotIfNeeded() // refused if there is one already
			w.r.Label("snapshot")
		} else if err := w.snap.DeleteSnapshot(); err != nil {
			return violate("device-snapshot", "DeleteSnapshot: %v", err)
		}
	case "reopen":
		if !w.isFile() {
			return nil
		}
		h := &nvm.StorageHeader{MajorVersion: nvm.MAJOR_VERSION, MinorVersion: nvm.MINOR_VERSION, BlockSize: block.Min(), UUID: uuid.UUID{1, 2, 3},
			JournalRegionSize: 512, DataRegionSize: uint64(len(w.model) - 1024)}
		var hb bytes.Buffer
		h.WriteHeaderRegionTo(&hb)
		root := w.views[0]
		if n, err := root.d.WriteAt(alignedCopy(hb.Bytes()), 0); err != nil || n != 512 {
			return violate("device-write", "writing the header: %d, %v", n, err)
		}
		w.wrote(0, hb.Bytes())
		if err := root.d.Close(); err != nil {
			return violate("device-close", "Close: %v", err)
		}
		if err := w.raw(); err != nil {
			return err
		}
		w.r.Label("reopened")
		return w.open(false)
	case "open2", "create2":
		if !w.isFile() {
			return nil
		}
		var f *nvm.FileNVM
		var err error
		if op.K == "open2" {
			f, _, err = nvm.Open(w.path)
		} else {
			f, err = nvm.CreateIfAbsent(w.path, uint64(len(w.model)))
		}
		if err == nil {
			f.Close()
			return violate("device-exclusive", "%s of an open device succeeded", op.K)
		}
	case "refuse":
		p := filepath.Join(w.r.Dir, "other.lusf")
		if f, err := nvm.CreateIfAbsent(p, uint64(op.N)|1); err == nil {
			f.Close()
			return violate("device-create", "a file device of %d bytes was created", op.N|1)
		}
		if f, err := nvm.CreateIfAbsent(filepath.Join(w.r.Dir, "other.dat"), 512); err == nil {
			f.Close()
			return violate("device-create", "a file device was created at a path that can not be opened")
		}
		if _, err := nvm.New(uint64(op.N) | 1); err == nil {
			return violate("device-create", "a memory device of %d bytes was created", op.N|1)
		}
		if _, err := nvm.NewFromVec(make([]byte, op.N|1)); err == nil {
			return violate("device-create", "a memory device of %d bytes was created", op.N|1)
		}
		for _, n := range []string{"other.lusf", "other.dat"} {
			if _, err := os.Stat(filepath.Join(w.r.Dir, n)); err == nil {
				return violate("device-create", "a refused creation left %s behind", n)
			}
		}
	}
	return nil
}

// raw compares the closed file with the model: bytes that are not in the file were never written.
func (w *devWorld) raw() error {
	b, err := os.ReadFile(w.path)
	if err != nil {
		return violate("device-file", "%v", err)
	}
	if len(b) > len(w.model) {
		return violate("device-file", "the file of a device of %d bytes has %d", len(w.model), len(b))
	}
	b = append(b, make([]byte, len(w.model)-len(b))...)
	if !bytes.Equal(b, w.model) {
		return violate("device-file", "byte %d of the closed file is not what was last written", diffAt(b, w.model))
	}
	return nil
}

// check compares the whole device and every view's position.
func (w *devWorld) check() error {
	if w.bad != nil {
		return w.bad
	}
	for i, v := range w.views {
		if p := v.d.Position(); p != uint64(v.cur) {
			return violate("device-position", "view %d [%d,%d) is at %d, expected %d", i, v.start, v.end, p, v.cur)
		}
		if c := v.d.Capacity(); c != uint64(v.end-v.start) {
			return violate("device-capacity", "view %d [%d,%d) has capacity %d", i, v.start, v.end, c)
		}
		if v.d.BlockSize() != block.Min() {
			return violate("device-blocksize", "block size %d", v.d.BlockSize())
		}
	}
	b := alignedCopy(make([]byte, len(w.model)))
	n, err := w.views[0].d.ReadAt(b, 0)
	if err != nil && err != io.EOF || n < w.high {
		return violate("device-read", "reading all %d bytes, of which %d were written: %d, %v", len(b), w.high, n, err)
	}
	if !bytes.Equal(b[:n], w.model[:n]) {
		return violate("device-content", "byte %d of the device is not what was last written", diffAt(b[:n], w.model[:n]))
	}
	return nil
}

func execDevice(r *Run, c DevCase) error {
	w := &devWorld{r: r, c: c, path: filepath.Join(r.Dir, "d.lusf"), model: make([]byte, c.Sectors*512)}
	if c.Kind == "vec" {
		copy(w.model, RecSpec{Size: len(w.model), Seed: 5}.payload())
		w.high = len(w.model)
	}
	nvm.DEFAULT_REGION_SHIFT = 20
	setHook(func(x *nvm.VerifIO) error {
		if x.After || x.Op == "sync" {
			return nil
		}
		switch {
		case x.Off < 0 || x.Off%512 != 0 || len(x.Buf)%512 != 0:
			w.bad = violate("device-raw-misaligned", "%s of %d bytes at %d reached the file", x.Op, len(x.Buf), x.Off)
		case len(x.Buf) > 0 && uintptr(unsafe.Pointer(&x.Buf[0]))%512 != 0:
			w.bad = violate("device-raw-misaligned", "%s with a misaligned buffer reached the file", x.Op)
		case x.Op == "write" && x.Off+int64(len(x.Buf)) > int64(len(w.model)):
			w.bad = violate("device-outside", "a write of %d bytes at %d reached a device of %d", len(x.Buf), x.Off, len(w.model))
		}
		return nil
	})
	if err := w.open(true); err != nil {
		return err
	}
	writes := 0
	for i, op := range c.Ops {
		err := w.step(op)
		if err == nil {
			err = w.check()
		}
		if err != nil {
			return at(err, i)
		}
		if op.K == "write" || op.K == "writeat" {
			writes++
		}
	}
	if w.isFile() {
		if err := w.views[0].d.Close(); err != nil {
			return violate("device-close", "Close: %v", err)
		}
		if err := w.raw(); err != nil {
			return err
		}
	}
	r.Label(c.Kind)
	if writes >= 2 && (r.labels["split"] > 0 || r.labels["reopened"] > 0) && w.high > 0 {
		r.NonTrivial()
	}
	r.Count("operations", int64(len(c.Ops)))
	return nil
}

func init() {
	register(&PBT[DevCase]{
		Id: "C10",
		RuleText: "rapid draws a device (memory, given memory, file, snapshotting file) of 3..40 sectors and up to 50 reads, writes, seeks, positional accesses (inside, across the end, beyond, negative, misaligned), nested splits, syncs, snapshots, reopens and second openings; " +
			"a byte array with views is the model; after every operation the whole device, every view's position and capacity are compared, and every access to the file is checked to be aligned and inside. " +
			"Non-trivial: at least two writes and a split view or a reopen.",
		Assume: []string{"a positional read of a file device behind the last written byte may end early (the file is sparse)", "a memory device may serve misaligned reads, with the right bytes"},
		Gen: func(t *rapid.T, tier string) DevCase {
			var c DevCase
			c.Kind = rapid.SampledFrom([]string{"mem", "vec", "file", "file", "snap"}).Draw(t, "kind")
			c.Sectors = rapid.IntRange(3, 40).Draw(t, "sectors")
			kinds := expand([]weighted{{"read", 5}, {"write", 8}, {"seek", 6}, {"readat", 5}, {"writeat", 6}, {"split", 4}, {"sync", 1}})
			if c.Kind == "file" || c.Kind == "snap" {
				kinds = append(kinds, "reopen", "reopen", "open2", "create2", "refuse")
			}
			if c.Kind == "snap" {
				kinds = append(kinds, "snapc", "snapc", "snapd")
			}
			off := func(l string) int64 {
				o := int64(rapid.IntRange(0, c.Sectors).Draw(t, l)) * 512
				switch rapid.IntRange(0, 14).Draw(t, l+"k") {
				case 0:
					o += int64(rapid.IntRange(1, 511).Draw(t, l+"m"))
				case 1:
					o = -o
				case 2:
					o += int64(c.Sectors) * 512
				case 3:
					o = rapid.SampledFrom([]int64{1 << 40, 1 << 62, -1 << 62, 1<<63 - 512, -512, -1}).Draw(t, l+"x")
				}
				return o
			}
			n := func() int {
				x := rapid.IntRange(0, 5).Draw(t, "n") * 512
				switch rapid.IntRange(0, 14).Draw(t, "nk") {
				case 0:
					x += rapid.IntRange(1, 511).Draw(t, "nm")
				case 1:
					x = rapid.IntRange(0, c.Sectors+2).Draw(t, "n") * 512
				}
				return x
			}
			c.Ops = rapid.SliceOfN(rapid.Custom(func(t2 *rapid.T) DevOp {
				t = t2
				op := DevOp{K: rapid.SampledFrom(kinds).Draw(t, "k")}
				op.V = rapid.IntRange(0, 8).Draw(t, "v")
				switch op.K {
				case "read":
					op.N = n()
				case "write":
					op.N, op.S = n(), rapid.IntRange(1, 999).Draw(t, "s")
				case "readat":
					op.N, op.Off = n(), off("off")
				case "writeat":
					op.N, op.Off, op.S = n(), off("off"), rapid.IntRange(1, 999).Draw(t, "s")
				case "seek":
					op.Off, op.W = off("off"), rapid.IntRange(0, 2).Draw(t, "w")
					if rapid.Bool().Draw(t, "neg") && op.W > 0 && op.Off > -1<<61 {
						op.Off = -op.Off
					}
				case "split":
					op.Off = off("off")
				case "refuse":
					op.N = rapid.IntRange(0, 2000).Draw(t, "n")
				}
				return op
			}), 1, 50).Draw(t, "ops")
			return c
		},
		Exec:  execDevice,
		Quick: Budget{Cases: 100000, Seconds: 40}, Thorough: Budget{Cases: 2000000, Seconds: 600},
	})
}

var _ = fmt.Sprint

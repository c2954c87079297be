package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"path/filepath"

	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage/journal"
	"pgregory.net/rapid"
)

// BufOp is one operation on the journal's write buffer.
//
//	seek N (whence I), write N bytes, read N bytes, flush, sync, new (a new buffer after a flush), fail (the next device operation of kind I fails)
type BufOp struct {
	K string
	N int `json:",omitempty"`
	I int `json:",omitempty"`
	S int `json:",omitempty"`
}

// BufCase is a device size and a history.
type BufCase struct {
	Sectors int
	Lead    int  // sectors before the view the buffer works on
	File    bool // on a file device
	Ops     []BufOp
}

var errInjected = errors.New("injected device error")

// faultNVM passes everything on and fails on request.
type faultNVM struct {
	nvm.NonVolatileMemory
	fail   string
	failed bool
}

func (f *faultNVM) hit(k string) bool {
	if f.fail == k {
		f.fail, f.failed = "", true
		return true
	}
	return false
}
func (f *faultNVM) Read(b []byte) (int, error) {
	if f.hit("read") {
		return 0, errInjected
	}
	return f.NonVolatileMemory.Read(b)
}
func (f *faultNVM) Write(b []byte) (int, error) {
	if f.hit("write") {
		return -1, errInjected
	}
	return f.NonVolatileMemory.Write(b)
}
func (f *faultNVM) Seek(o int64, w int) (int64, error) {
	if f.hit("seek") {
		return -1, errInjected
	}
	return f.NonVolatileMemory.Seek(o, w)
}
func (f *faultNVM) Sync() error {
	if f.hit("sync") {
		return errInjected
	}
	return f.NonVolatileMemory.Sync()
}

func execBuffer(r *Run, c BufCase) error {
	total := (c.Lead + c.Sectors + 1) * 512
	var dev nvm.NonVolatileMemory
	var err error
	if c.File {
		dev, err = nvm.CreateIfAbsent(filepath.Join(r.Dir, "b.lusf"), uint64(total))
	} else {
		dev, err = nvm.New(uint64(total))
	}
	if err != nil {
		harnessFail(err)
	}
	defer dev.Close()
	whole := make([]byte, total)
	for i := range whole {
		whole[i] = byte(i*7 + i/512*31 + 1)
	}
	put := alignedCopy(whole)
	if _, err := dev.Write(put); err != nil {
		harnessFail(err)
	}
	_, rest, err := dev.Split(uint64(c.Lead * 512))
	if err != nil {
		return violate("device-split", "%v", err)
	}
	view, _, err := rest.Split(uint64(c.Sectors * 512))
	if err != nil {
		return violate("device-split", "%v", err)
	}
	f := &faultNVM{NonVolatileMemory: view}
	jb := journal.NewJournalNvmBuffer(f)
	capacity := c.Sectors * 512
	want := append([]byte(nil), whole[c.Lead*512:c.Lead*512+capacity]...)
	// versions each sector had since it was last known to be on the device
	vers := make([][][]byte, c.Sectors)
	sec := func(b []byte, i int) []byte { return b[i*512 : i*512+512] }
	for i := range vers {
		vers[i] = [][]byte{append([]byte(nil), sec(want, i)...)}
	}
	pos := 0
	raw := func() []byte {
		b := alignedCopy(make([]byte, total))
		if _, err := dev.ReadAt(b, 0); err != nil && err != io.EOF {
			harnessFail(err)
		}
		return b
	}
	device := func(exact bool) error {
		b := raw()
		if !bytes.Equal(b[:c.Lead*512], whole[:c.Lead*512]) || !bytes.Equal(b[c.Lead*512+capacity:], whole[c.Lead*512+capacity:]) {
			return violate("buffer-outside", "the device changed outside the journal's view")
		}
		b = b[c.Lead*512 : c.Lead*512+capacity]
		for i := range vers {
			if exact {
				if !bytes.Equal(sec(b, i), sec(want, i)) {
					return violate("buffer-flush", "after a flush sector %d of the device does not hold what was written: byte %d", i, i*512+diffAt(sec(b, i), sec(want, i)))
				}
				vers[i] = [][]byte{append([]byte(nil), sec(want, i)...)}
				continue
			}
			ok := false
			for _, v := range vers[i] {
				ok = ok || bytes.Equal(v, sec(b, i))
			}
			if !ok {
				return violate("buffer-device", "sector %d of the device holds something it never had to hold", i)
			}
		}
		return nil
	}
	var crossings, backward bool
	for i, op := range c.Ops {
		failedBefore := f.failed
		f.failed = false
		var opErr error
		exact := false
		switch op.K {
		case "seek":
			off, base := int64(op.N), int64(0)
			switch op.I {
			case io.SeekCurrent:
				base = int64(pos)
			case io.SeekEnd:
				base = int64(capacity)
			}
			if op.I != io.SeekStart {
				off -= base
			}
			got, err := jb.Seek(off, op.I)
			if err != nil || got != int64(op.N) {
				return at(violate("buffer-seek", "Seek(%d,%d) gave %d, %v", off, op.I, got, err), i)
			}
			if op.N < pos {
				backward = true
			}
			pos = op.N
		case "write":
			data := RecSpec{Size: op.N, Seed: op.S}.payload()
			n, err := jb.Write(data)
			opErr = err
			if pos+op.N > capacity {
				if err == nil {
					return at(violate("buffer-overflow", "%d bytes were written at %d of %d", op.N, pos, capacity), i)
				}
				if !f.failed && err != internalerror.InconsistentState {
					return at(violate("buffer-overflow", "writing %d bytes at %d of %d failed with %v", op.N, pos, capacity, err), i)
				}
				opErr = nil
			} else if err == nil {
				if n != op.N {
					return at(violate("buffer-write", "Write of %d bytes gave %d", op.N, n), i)
				}
				copy(want[pos:], data)
				if op.N > 0 && pos/512 != (pos+op.N-1)/512 {
					crossings = true
				}
				for s := pos / 512; s < c.Sectors && s*512 < pos+op.N; s++ {
					vers[s] = append(vers[s], append([]byte(nil), sec(want, s)...))
				}
				pos += op.N
			}
		case "read":
			buf := make([]byte, op.N)
			n, err := jb.Read(buf)
			opErr = err
			w := 0
			if pos < capacity {
				w = min(op.N, capacity-pos)
			}
			if err == io.EOF && w == 0 {
				opErr = nil
			} else if pos > capacity && err != nil {
				opErr = nil
			} else if err == nil {
				if n != w && !(pos > capacity && n == 0) {
					return at(violate("buffer-read", "Read of %d bytes at %d of %d gave %d", op.N, pos, capacity, n), i)
				}
				if n > 0 && !bytes.Equal(buf[:n], want[pos:pos+n]) {
					return at(violate("buffer-content", "reading %d bytes at %d: byte %d is not what was last written", op.N, pos, pos+diffAt(buf[:n], want[pos:pos+n])), i)
				}
				pos += n
			}
		case "flush":
			opErr = jb.Flush()
			exact = opErr == nil
		case "sync":
			opErr = jb.Sync()
			exact = opErr == nil
		case "new":
			if opErr = jb.Flush(); opErr == nil {
				jb, pos, exact = journal.NewJournalNvmBuffer(f), 0, true
			}
		case "fail":
			f.fail = []string{"read", "write", "seek", "sync"}[op.I%4]
		}
		if opErr != nil && !f.failed {
			return at(violate("buffer-error", "%s of %d bytes at %d of %d failed: %v", op.K, op.N, pos, capacity, opErr), i)
		}
		if f.failed {
			if opErr == nil && op.K != "read" && op.K != "write" {
				return at(violate("buffer-error-lost", "%s succeeded although the device failed", op.K), i)
			}
			r.Label("device-error")
		}
		_ = failedBefore
		if got := jb.Position(); got != uint64(pos) {
			return at(violate("buffer-position", "after %s the position is %d, expected %d", op.K, got, pos), i)
		}
		if err := device(exact); err != nil {
			return at(err, i)
		}
	}
	f.fail = ""
	// everything can still be read, at once and in pieces
	for _, step := range []int{capacity, 97} {
		if _, err := jb.Seek(0, io.SeekStart); err != nil {
			return violate("buffer-seek", "%v", err)
		}
		var got []byte
		for {
			b := make([]byte, step)
			n, err := jb.Read(b)
			got = append(got, b[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil || n == 0 {
				return violate("buffer-read", "reading everything: %d, %v at %d", n, err, len(got))
			}
		}
		if !bytes.Equal(got, want) {
			return violate("buffer-content", "reading everything: byte %d of %d is not what was last written", diffAt(got, want), len(got))
		}
	}
	if err := jb.Close(); err != nil {
		return violate("buffer-close", "%v", err)
	}
	if err := device(true); err != nil {
		return err
	}
	if crossings {
		r.Label("sector-crossing")
	}
	if crossings && backward {
		r.NonTrivial()
	}
	r.Count("operations", int64(len(c.Ops)))
	return nil
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// alignedCopy is a copy of b that direct I/O accepts.
func alignedCopy(b []byte) []byte {
	x := make([]byte, len(b)+512)
	o := alignOffset(x)
	x = x[o : o+len(b)]
	copy(x, b)
	return x
}

func init() {
	register(&PBT[BufCase]{
		Id: "C21",
		RuleText: "rapid draws a view of 1..8 sectors within a memory or file device with foreign bytes around it, and up to 60 seeks, writes, reads, flushes, syncs, rebuilt buffers and failing device operations at byte positions clustered around sector borders; " +
			"a byte array is the model. After every operation every device sector must hold some version the operations gave it since the last flush, after a flush exactly the model. " +
			"Non-trivial: a write across a sector border and a backward seek.",
		Gen: func(t *rapid.T, tier string) BufCase {
			var c BufCase
			c.Sectors = rapid.IntRange(1, 8).Draw(t, "sectors")
			c.Lead = rapid.IntRange(0, 2).Draw(t, "lead")
			c.File = rapid.IntRange(0, 5).Draw(t, "file") == 5
			capacity := c.Sectors * 512
			position := func() int {
				if rapid.Bool().Draw(t, "border") {
					p := rapid.IntRange(0, c.Sectors).Draw(t, "sec")*512 + rapid.IntRange(-3, 3).Draw(t, "d")
					return max(0, min(capacity, p))
				}
				return rapid.IntRange(0, capacity).Draw(t, "pos")
			}
			faults := rapid.IntRange(0, 2).Draw(t, "faults") == 2
			c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) BufOp {
				kinds := []string{"seek", "seek", "write", "write", "write", "write", "read", "read", "flush", "sync", "new"}
				if faults {
					kinds = append(kinds, "fail")
				}
				op := BufOp{K: rapid.SampledFrom(kinds).Draw(t, "k")}
				switch op.K {
				case "seek":
					op.N, op.I = position(), rapid.IntRange(0, 2).Draw(t, "whence")
					if rapid.IntRange(0, 40).Draw(t, "beyond") == 40 {
						op.N = capacity + rapid.IntRange(1, 2000).Draw(t, "over")
					}
				case "write", "read":
					switch rapid.IntRange(0, 3).Draw(t, "nk") {
					case 0:
						op.N = rapid.IntRange(0, 1).Draw(t, "n")*509 + rapid.IntRange(0, 6).Draw(t, "nd")
					case 1:
						op.N = rapid.IntRange(0, capacity+2).Draw(t, "n")
					default:
						op.N = rapid.IntRange(0, 40).Draw(t, "n")
					}
					op.S = rapid.IntRange(1, 1000).Draw(t, "s")
				case "fail":
					op.I = rapid.IntRange(0, 3).Draw(t, "i")
				}
				return op
			}), 1, 60).Draw(t, "ops")
			return c
		},
		Exec:  execBuffer,
		Quick: Budget{Cases: 150000, Seconds: 40}, Thorough: Budget{Cases: 3000000, Seconds: 600},
	})
}

var _ = fmt.Sprint

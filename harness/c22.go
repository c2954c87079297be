package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
	"pgregory.net/rapid"
)

// SnapRound is one life of a snapshot, driven by a goroutine of its own.
type SnapRound struct {
	ByReader bool // created by GetSnapshotReader instead of CreateSnapshot
	Readers  int  // goroutines that read the whole image
	Chunk    int
	Slow     int  // pause between reads, in microseconds
	Delete   int  // 0: keep it (last round only), 1: delete when all is read, 2: delete while another reader reads
	Wait     int  // pause before the round, in microseconds
	Second   bool // ask for a second snapshot in between
}

// C22Case is a store with concurrent writers and a goroutine taking, reading and deleting snapshots.
type C22Case struct {
	ConcCase
	Rounds []SnapRound
}

type snapRead struct {
	img []byte
	err error
}

// underRead is a reader whose snapshot is deleted while it reads.
type underRead struct {
	wg   sync.WaitGroup
	fast atomic.Bool
	want []byte
	img  []byte
	err  error
}

// readImage reads a snapshot to its end.
func readImage(rd *nvm.SnapshotReader, chunk, slow int, stop *atomic.Bool) (b []byte, err error) {
	buf := make([]byte, chunk)
	for {
		if stop != nil && stop.Load() {
			slow = 0
		}
		n, e := rd.Read(buf)
		b = append(b, buf[:n]...)
		if e == io.EOF {
			return b, nil
		}
		if e != nil {
			return b, e
		}
		if n == 0 {
			return b, violate("snapshot-read", "Read gave nothing and no error at %d", len(b))
		}
		pause(slow)
	}
}

// imageState opens a saved image as a store and returns what is in it.
func imageState(dir string, n int, img []byte, c C22Case) (cOut, error) {
	var out cOut
	d := filepath.Join(dir, fmt.Sprintf("img%d", n))
	mustMkdir(d)
	defer mustRemove(d)
	path := filepath.Join(d, "s.lusf")
	if err := os.WriteFile(path, img, 0644); err != nil {
		harnessFail(err)
	}
	st, err := storage.OpenCannylsStorage(path)
	if err != nil {
		return out, violate("snapshot-open", "the snapshot does not open: %v", err)
	}
	defer st.Close()
	var state cState
	for _, id := range st.List() {
		slot := slotOf(c.IDs, id.U64())
		if slot < 0 {
			return out, violate("snapshot-content", "the snapshot has an object %d that was never written", id.U64())
		}
		b, err := st.Get(id)
		if err != nil {
			return out, violate("snapshot-content", "reading object %d of the snapshot: %v", id.U64(), err)
		}
		_, err = st.GetRecord(id)
		state.O[slot] = cObj{There: true, Embed: err != nil, Data: string(b)}
	}
	out.State = &state
	if err := concSpace(st, c.ConcCase); err != nil {
		return out, wrapClass("snapshot-", err)
	}
	return out, nil
}

func snapshotsIn(dir string) (out []string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if strings.Contains(e.Name(), "snapshot") {
			out = append(out, e.Name())
		}
	}
	return
}

func c22Once(r *Run, c C22Case, dir string) error {
	nvm.DEFAULT_REGION_SHIFT = 20
	path := filepath.Join(dir, "store.lusf")
	st, err := storage.CreateCannylsStorage(path, c.G.capacity(), c.G.ratio())
	if err != nil {
		return violate("create-failed", "%v", err)
	}
	defer func() { st.Close() }()
	t0 := time.Now()
	var hist []porcupine.Operation
	seq := func(op Op) {
		in := concIn(op, c.IDs)
		call := time.Since(t0)
		out, rec := concApply(st, in)
		if rec {
			hist = append(hist, porcupine.Operation{ClientId: 0, Input: in, Call: int64(call), Output: out, Return: int64(time.Since(t0))})
		}
	}
	for _, op := range c.Setup {
		seq(op)
	}
	threads := make([][]cIn, len(c.Threads))
	closes := false
	for g, ops := range c.Threads {
		for _, op := range ops {
			threads[g] = append(threads[g], concIn(op, c.IDs))
			closes = closes || op.K == "close"
		}
	}
	size := int(c.G.capacity())

	// the goroutine that takes snapshots
	var snapHist []porcupine.Operation
	var images [][]byte
	var snapErr error
	last := -1 // the image of the snapshot that is left at the end
	var pending []*underRead
	rounds := func() error {
		for i, rd := range c.Rounds {
			pause(rd.Wait)
			last = -1
			var first *nvm.SnapshotReader
			var err error
			call := time.Since(t0)
			if rd.ByReader {
				first, err = st.GetSnapshotReader()
			} else {
				err = st.CreateSnapshot()
			}
			ret := time.Since(t0)
			if i > 1 && len(pending) > 0 { // those of the round before last
				pending[0].fast.Store(true)
			}
			if err != nil {
				if closes && errKind(err) == "closed" {
					return nil
				}
				return violate("snapshot", "creating snapshot %d (by a reader: %v): %v", i, rd.ByReader, err)
			}
			if rd.Second {
				if err := st.CreateSnapshot(); err == nil {
					return violate("snapshot", "a second snapshot was created beside the first")
				}
			}
			n := rd.Readers
			if n < 1 {
				n = 1
			}
			res := make([]snapRead, n)
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				reader := first
				first = nil
				if reader == nil {
					if reader, err = st.GetSnapshotReader(); err != nil {
						wg.Wait()
						if closes && errKind(err) == "closed" {
							return nil
						}
						return violate("snapshot", "GetSnapshotReader of an existing snapshot: %v", err)
					}
				}
				wg.Add(1)
				go func(k int, reader *nvm.SnapshotReader) {
					defer wg.Done()
					if e := protect(func() error {
						res[k].img, res[k].err = readImage(reader, rd.Chunk, rd.Slow, nil)
						return nil
					}); e != nil {
						res[k].err = e
					}
				}(k, reader)
			}
			wg.Wait()
			for k := range res {
				if v, ok := res[k].err.(*Violation); ok {
					return v
				}
				if res[k].err != nil {
					if closes { // the store was closed under the reader
						return nil
					}
					return violate("snapshot-read", "reader %d of snapshot %d stopped at %d of %d: %v", k, i, len(res[k].img), size, res[k].err)
				}
				if len(res[k].img) > size || len(res[k].img)%blk != 0 {
					return violate("snapshot-read", "reader %d of snapshot %d got %d of %d bytes", k, i, len(res[k].img), size)
				}
				if k > 0 && !bytes.Equal(res[0].img, res[k].img) {
					return violate("snapshot-content", "two readers of snapshot %d disagree: %s", i, diffBytes(res[k].img, res[0].img))
				}
			}
			images = append(images, res[0].img)
			last = len(images) - 1
			snapHist = append(snapHist, porcupine.Operation{ClientId: len(threads) + 1, Call: int64(call), Return: int64(ret),
				Input: cIn{Op: Op{K: "snap", N: len(images) - 1}, IDs: c.IDs}})
			if rd.Delete == 0 && i == len(c.Rounds)-1 {
				return nil
			}
			// delete it, maybe under a reader, which goes on while the next snapshot is made
			if rd.Delete == 2 {
				reader, err := st.GetSnapshotReader()
				if err == nil {
					u := &underRead{want: res[0].img}
					pending = append(pending, u)
					u.wg.Add(1)
					go func() {
						defer u.wg.Done()
						if e := protect(func() error {
							u.img, u.err = readImage(reader, rd.Chunk, rd.Slow, &u.fast)
							return nil
						}); e != nil {
							u.err = e
						}
					}()
					pause(rd.Slow * 2)
				} else if !closes || errKind(err) != "closed" {
					return violate("snapshot", "GetSnapshotReader of an existing snapshot: %v", err)
				}
			}
			err = st.DeleteSnapshot()
			if err != nil {
				if closes && errKind(err) == "closed" {
					return nil
				}
				return violate("snapshot", "DeleteSnapshot: %v", err)
			}
			last = -1
			r.Count("snapshots deleted", 1)
		}
		return nil
	}

	control := func() error {
		err := protect(rounds)
		for _, u := range pending {
			u.fast.Store(true)
			u.wg.Wait()
			if v, ok := u.err.(*Violation); ok && err == nil {
				err = v
			}
			if n := len(u.img); err == nil && (n > len(u.want) || !bytes.Equal(u.img, u.want[:n])) {
				err = violate("snapshot-content", "a reader of a snapshot that was deleted meanwhile got other bytes, %d in all", n)
			}
			if u.err != nil {
				r.Label("reader-of-deleted-snapshot-refused")
			}
		}
		return err
	}
	setHook(delayHook(c.Delay))
	done := make(chan struct{})
	go func() {
		defer close(done)
		snapErr = protect(control)
	}()
	conc, err := runThreads(st, threads, c.Jitter, t0)
	<-done
	setHook(nil)
	hist = append(hist, conc...)
	explain := func(e error) error {
		if v, ok := e.(*Violation); ok {
			return violate(v.Class, "%s\n%s", v.Msg, dumpHistory(hist))
		}
		return e
	}
	if err != nil {
		return explain(err)
	}
	if snapErr != nil {
		return explain(snapErr)
	}

	// what the snapshots contain
	during := 0
	for i, op := range snapHist {
		out, err := imageState(dir, i, images[op.Input.(cIn).Op.N], c)
		if err != nil {
			return explain(err)
		}
		op.Output = out
		hist = append(hist, op)
		busy := false
		for _, w := range conc {
			if concRelevant[w.Input.(cIn).Op.K] && w.Return >= op.Call {
				busy = true
			}
		}
		if busy {
			during++
		}
	}
	r.Count("snapshots", int64(len(snapHist)))

	reads := func() {
		seq(Op{K: "list"})
		for _, id := range c.IDs {
			seq(Op{K: "get", ID: id})
		}
	}
	if !closes {
		reads()
		seq(Op{K: "close"})
	}
	if n := snapshotsIn(dir); last < 0 && !closes && len(n) > 0 {
		return violate("snapshot-files", "no snapshot is left but %v", n)
	}
	st2, err := openBounded(path, c.G.capacity())
	if err != nil {
		return explain(err)
	}
	st = st2
	seq(Op{K: "reopen"})
	reads()
	if err := concSpace(st, c.ConcCase); err != nil {
		return explain(err)
	}
	if last >= 0 {
		// the snapshot is still there
		if err := st.CreateSnapshot(); err == nil {
			return violate("snapshot", "the snapshot is gone after opening the store again")
		}
		reader, err := st.GetSnapshotReader()
		if err != nil {
			return violate("snapshot", "GetSnapshotReader after opening the store again: %v", err)
		}
		img, err := readImage(reader, 1<<20, 0, nil)
		if err != nil {
			return violate("snapshot-read", "after opening the store again: %v", err)
		}
		if !bytes.Equal(img, images[last]) {
			return violate("snapshot-content", "the snapshot differs after opening the store again: %s", diffBytes(img, images[last]))
		}
		r.Label("snapshot-kept-over-reopen")
	}
	for _, o := range hist {
		if o.Output.(cOut).Err == "full" { // fragmented: a Put that then deletes first is two steps
			r.Label("storage-full")
			return nil
		}
	}
	switch porcupine.CheckOperationsTimeout(concModel, hist, 8*time.Second) {
	case porcupine.Illegal:
		// which of the two is it?
		var plain []porcupine.Operation
		for _, o := range hist {
			if o.Input.(cIn).Op.K != "snap" {
				plain = append(plain, o)
			}
		}
		if porcupine.CheckOperationsTimeout(concModel, plain, 8*time.Second) == porcupine.Ok {
			return violate("snapshot-moment", "no single moment within the creating call has the contents of the snapshot:\n%s", dumpHistory(hist))
		}
		return violate("not-linearizable", "no sequential order of the operations gives these answers:\n%s", dumpHistory(hist))
	case porcupine.Unknown:
		r.Label("undecided-in-time")
	}
	if during > 0 {
		r.NonTrivial()
		r.Label("snapshot-under-load")
	}
	if closes {
		r.Label("closed-under-load")
	}
	return nil
}

func genC22(t *rapid.T, tier string) C22Case {
	var c C22Case
	c.G = Geom{J: rapid.SampledFrom([]int{4, 8, 16, 40, 2500}).Draw(t, "J"), D: rapid.SampledFrom([]int{20000, 24001, 30000}).Draw(t, "D")}
	c.IDs = rapid.SampledFrom([][]uint64{{1, 2, 3, 4}, {1, 2, 3, 4, 5, 6}, {1, 2}}).Draw(t, "ids")
	seed := 0
	// large objects leave the small ones scattered over the regions
	n := rapid.IntRange(0, 4).Draw(t, "nbig")
	for i := 0; i < n; i++ {
		seed++
		c.Setup = append(c.Setup, Op{K: "put", ID: rapid.SampledFrom(c.IDs).Draw(t, "id"), Seed: 9 * seed, Size: rapid.IntRange(300<<10, 900<<10).Draw(t, "big")})
	}
	m := rapid.IntRange(0, 3).Draw(t, "nsetup")
	setup := expand([]weighted{{"put", 4}, {"embed", 2}, {"del", 3}, {"pwo", 1}, {"sync", 1}})
	for i := 0; i < m; i++ {
		c.Setup = append(c.Setup, genConcOp(t, setup, c.IDs, &seed))
	}
	kinds := rapid.SampledFrom([][]string{
		expand([]weighted{{"put", 6}, {"embed", 4}, {"pwo", 6}, {"del", 4}, {"delr", 1}, {"get", 2}, {"sync", 1}, {"flush", 1}, {"side", 1}, {"gc", 1}}),
		expand([]weighted{{"pwo", 6}, {"put", 2}, {"get", 1}}),
		expand([]weighted{{"embed", 6}, {"put", 3}, {"del", 2}, {"gc", 2}, {"side", 2}}),
		expand([]weighted{{"put", 6}, {"del", 4}, {"get", 2}}),
	}).Draw(t, "flavour")
	k := rapid.IntRange(1, 3).Draw(t, "threads")
	for g := 0; g < k; g++ {
		var ops []Op
		for i, m := 0, rapid.IntRange(2, 20).Draw(t, "nops"); i < m; i++ {
			op := genConcOp(t, kinds, c.IDs, &seed)
			switch {
			case op.K == "put" && rapid.IntRange(0, 9).Draw(t, "big?") == 9:
				op.Size = rapid.IntRange(2000, 700<<10).Draw(t, "big")
			case op.K == "pwo" && rapid.IntRange(0, 2).Draw(t, "far?") == 2:
				op.Off = uint32(rapid.IntRange(0, 300<<10).Draw(t, "off"))
				op.Size = rapid.IntRange(1, 200<<10).Draw(t, "len")
			}
			ops = append(ops, op)
		}
		c.Threads = append(c.Threads, ops)
	}
	if rapid.IntRange(0, 9).Draw(t, "close?") == 0 {
		c.Threads[0] = append(c.Threads[0], Op{K: "close"})
	}
	for i, m := 0, rapid.IntRange(1, 3).Draw(t, "rounds"); i < m; i++ {
		c.Rounds = append(c.Rounds, SnapRound{
			ByReader: rapid.Bool().Draw(t, "byreader"),
			Readers:  rapid.IntRange(1, 2).Draw(t, "readers"),
			Chunk:    rapid.SampledFrom([]int{1 << 20, 300000, 65536, 3 << 20}).Draw(t, "chunk"),
			Slow:     rapid.SampledFrom([]int{0, 50, 300}).Draw(t, "slow"),
			Delete:   rapid.SampledFrom([]int{1, 2, 0}).Draw(t, "delete"),
			Wait:     rapid.SampledFrom([]int{0, 100, 1000, 4000}).Draw(t, "wait"),
			Second:   rapid.IntRange(0, 3).Draw(t, "second") == 3,
		})
	}
	c.Delay = rapid.SampledFrom([]int{0, 20, 100}).Draw(t, "delay")
	c.Jitter = rapid.SampledFrom([]int{0, 50, 200, 600}).Draw(t, "jitter")
	return c
}

func init() {
	register(&PBT[C22Case]{
		Id:         "C22",
		Concurrent: true,
		RuleText:   "a case counts as non-trivial if a snapshot was created, fully read and opened while a writer still had an operation to finish",
		Assume: []string{
			"schedules are sampled: delays at device operations, between operations and between reads, not enumerated",
			"regions of 1 MiB, stores of up to 15 MiB, at most 3 writers, 2 readers and 3 snapshots in a row",
		},
		Gen:      genC22,
		Exec:     func(r *Run, c C22Case) error { return repeat(r, func(dir string) error { return c22Once(r, c, dir) }) },
		Quick:    Budget{Cases: 6000, Seconds: 75},
		Thorough: Budget{Cases: 40000, Seconds: 600},
	})
}

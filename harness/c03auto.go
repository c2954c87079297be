package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
	"pgregory.net/rapid"
)

// C03Auto is a long history without any sync, flush or read: N operations derived from Seed, then Side background jobs. The
// file as it is then holds a state at most autoLoss operations old, and the newest one after two background jobs.
type C03Auto struct {
	N      int
	IDs    int
	Data   int // one in Data operations uses the data area, 0: none
	Size   int
	Seed   uint64
	Side   int
	Jobs   int // argument of the background jobs
	Autogc bool
	Roomy  bool // the journal takes all records: nothing is ever collected
}

// autoLoss is the number of changes that may be lost without any sync. The store syncs itself every 8193.
const autoLoss = 10000

func genC03Auto(t *rapid.T) *C03Auto {
	c := &C03Auto{IDs: uniform(t, 1, 60, "ids"), Size: uniform(t, 0, 12, "size"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed"),
		Autogc: rapid.Bool().Draw(t, "autogc"), Roomy: rapid.Bool().Draw(t, "roomy"), Jobs: uniform(t, 1, 40, "jobs")}
	if rapid.Bool().Draw(t, "data?") {
		c.Data = uniform(t, 2, 50, "data")
	}
	if !c.Roomy {
		c.Autogc = true
	}
	if rapid.Bool().Draw(t, "side?") {
		c.Side = 2
		c.N = uniform(t, 1, 3000, "n")
		if !c.Roomy { // many live records, so that the jobs have much to relocate
			c.IDs, c.Jobs = uniform(t, 100, 600, "many"), uniform(t, 1, 4, "fewjobs")
			c.N += 10 * c.IDs
		}
	} else {
		c.N = uniform(t, autoLoss+200, 17000, "n")
	}
	return c
}

func execC03Auto(r *Run, c C03Auto) error {
	g := Geom{J: 2 + (c.N*(34+c.Size)+4000)/blk*2, D: 3*c.IDs + 10}
	if !c.Roomy {
		g.J = 64 + c.IDs*(34+c.Size)*8/blk
	}
	path := filepath.Join(r.Dir, "s.lusf")
	st, err := storage.CreateCannylsStorage(path, g.capacity(), g.ratio())
	if err != nil {
		return violate("create-failed", "%v", err)
	}
	defer func() { st.Close() }()
	st.SetAutomaticGcMode(c.Autogc)
	type delta struct {
		id   uint64
		data []byte // nil: deleted
	}
	hist := make([]delta, 0, c.N)
	for i := 0; i < c.N; i++ {
		x := mix(c.Seed, uint64(i))
		id := x % uint64(c.IDs)
		d := delta{id, nil}
		var err error
		switch {
		case x>>16%4 == 0:
			_, _, err = st.Delete(lid(id))
		case c.Data > 0 && x>>20%uint64(c.Data) == 0:
			d.data = []byte(fmt.Sprint("data ", i))
			_, err = st.Put(lid(id), lump.NewLumpDataWithAb(block.FromBytes(d.data, block.Min())))
		default:
			d.data = append([]byte(fmt.Sprint(i)), make([]byte, c.Size)...)
			_, err = st.PutEmbed(lid(id), d.data)
		}
		if err != nil {
			return violate("auto-sync-op", "operation %d of a long history without syncs: %v", i, err)
		}
		hist = append(hist, d)
	}
	for i := 0; i < c.Side; i++ {
		st.RunSideJobOnce(c.Jobs)
	}
	raw, err := os.ReadFile(path)
	if err != nil {
		harnessFail(err)
	}
	least := len(hist) - autoLoss
	if c.Side >= 2 {
		least = len(hist)
		r.Label("auto-side")
	} else {
		r.Label("auto-sync")
		r.NonTrivial()
	}
	copyPath := filepath.Join(r.Dir, "crash.lusf")
	if err := os.WriteFile(copyPath, raw, 0644); err != nil {
		harnessFail(err)
	}
	rec, err := openBounded(copyPath, g.capacity())
	if err != nil {
		return violate("crash-open", "after %d operations without a sync and %d background jobs: %v", c.N, c.Side, err)
	}
	defer rec.Close()
	have := map[uint64][]byte{}
	for _, id := range rec.List() {
		b, err := rec.Get(id)
		if err != nil {
			return violate("crash-read", "id %d can not be read: %v", id.U64(), err)
		}
		have[id.U64()] = b
	}
	// wrong counts the ids whose state differs from what reopened, prefix by prefix
	cur := map[uint64][]byte{}
	same := func(id uint64) bool {
		h, ok := have[id]
		return ok == (cur[id] != nil) && bytes.Equal(h, cur[id])
	}
	wrong := len(have)
	newest := -1
	if wrong == 0 {
		newest = 0
	}
	for i, d := range hist {
		if !same(d.id) {
			wrong--
		}
		cur[d.id] = d.data
		if !same(d.id) {
			wrong++
		}
		if wrong == 0 {
			newest = i + 1
		}
	}
	if newest < least {
		return violate("not-durable", "after %d operations without a sync and %d background jobs in a row the file holds the state after %d operations (-1: none), at least %d expected", c.N, c.Side, newest, least)
	}
	r.Count("operations", int64(c.N))
	return nil
}

package main

import (
	"fmt"
	"path/filepath"
	"sync"
	"sync/atomic"

	"github.com/thesues/cannyls-go/storage"
)

// C14Race lets several callers create one store at the same time, each with its own geometry, and then several callers
// open it at the same time.
type C14Race struct {
	Caps    []uint64 // one creator each, in blocks
	Rounds  int
	Openers int
	Hold    bool // the winner keeps the store open until all others have given up
}

// execRace: exactly one creator succeeds and has the store it asked for; what it stores stays. Openers only ever have the
// store one at a time.
func execRace(r *Run, c C14Race) error {
	for round := 0; round < c.Rounds; round++ {
		path := filepath.Join(r.Dir, fmt.Sprintf("race%d.lusf", round))
		if err := raceCreate(r, c, path); err != nil {
			return err
		}
	}
	return nil
}

func raceCreate(r *Run, c C14Race, path string) error {
	type result struct {
		st  *storage.Storage
		err error
	}
	res := make([]result, len(c.Caps))
	gate := make(chan struct{})
	var wg sync.WaitGroup
	var bad atomic.Pointer[string]
	complain := func(format string, a ...any) {
		s := fmt.Sprintf(format, a...)
		bad.CompareAndSwap(nil, &s)
	}
	for i := range c.Caps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					complain("panic: %v", p)
				}
			}()
			<-gate
			st, err := storage.CreateCannylsStorage(path, c.Caps[i]*blk, 0.25)
			if err != nil {
				res[i].err = err
				return
			}
			h := st.Header()
			if h.StorageSize() != c.Caps[i]*blk {
				complain("a creator who asked for %d blocks was given a store of %d bytes", c.Caps[i], h.StorageSize())
			}
			if _, err := st.PutEmbed(lid(uint64(i)), []byte{byte(i)}); err != nil {
				complain("the creator's store refused an object: %v", err)
			}
			st.Sync()
			res[i].st = st
			if !c.Hold {
				st.Close()
			}
		}()
	}
	close(gate)
	wg.Wait()
	winner, winners := -1, 0
	for i := range res {
		if res[i].st != nil {
			winner = i
			winners++
			if c.Hold {
				defer res[i].st.Close()
			}
		}
	}
	if s := bad.Load(); s != nil {
		return violate("create-race", "%s", *s)
	}
	if winners != 1 {
		return violate("create-race", "%d of %d creators of one path succeeded: %v", winners, len(c.Caps), res)
	}
	if c.Hold {
		if v, err := res[winner].st.Get(lid(uint64(winner))); err != nil || len(v) != 1 || v[0] != byte(winner) {
			return violate("create-race", "the winner's object reads %v, %v", v, err)
		}
		res[winner].st.Close()
	}
	r.Label("create-race")

	// the openers: each successful one has the store for itself
	var inside, opened atomic.Int32
	stored := make([]bool, c.Openers)
	gate = make(chan struct{})
	for i := 0; i < c.Openers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					complain("panic: %v", p)
				}
			}()
			<-gate
			st, err := storage.OpenCannylsStorage(path)
			if err != nil {
				return
			}
			if inside.Add(1) != 1 {
				complain("the store is open in two places")
			}
			opened.Add(1)
			if _, err := st.PutEmbed(lid(uint64(100+i)), []byte{byte(i)}); err == nil {
				stored[i] = true
			} else {
				complain("the opened store refused an object: %v", err)
			}
			inside.Add(-1)
			st.Close()
		}()
	}
	close(gate)
	wg.Wait()
	if s := bad.Load(); s != nil {
		return violate("open-race", "%s", *s)
	}
	if c.Openers > 0 && opened.Load() == 0 {
		return violate("open-race", "none of %d openers of a closed store succeeded", c.Openers)
	}
	if opened.Load() > 1 {
		r.Label("open-race-turns")
	}
	st, err := openBounded(path, c.Caps[winner]*blk)
	if err != nil {
		return violate("create-race", "the winner's store does not open afterwards: %v", err)
	}
	defer st.Close()
	want := map[uint64]byte{uint64(winner): byte(winner)}
	for i, ok := range stored {
		if ok {
			want[uint64(100+i)] = byte(i)
		}
	}
	h := st.Header()
	if h.StorageSize() != c.Caps[winner]*blk {
		return violate("create-race", "the winner asked for %d blocks, afterwards the store has %d bytes", c.Caps[winner], h.StorageSize())
	}
	ids := st.List()
	if len(ids) != len(want) {
		return violate("create-race", "afterwards the store holds %v; stored were %v", ids, want)
	}
	for id, b := range want {
		if v, err := st.Get(lid(id)); err != nil || len(v) != 1 || v[0] != b {
			return violate("create-race", "object %d reads %v, %v afterwards", id, v, err)
		}
	}
	return nil
}

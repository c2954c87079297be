package main

import (
	"path/filepath"
	"time"

	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage"
	"github.com/thesues/cannyls-go/storage/allocator"

	"sync"
)

// regionOnce drives a data region on its own from several goroutines. Each goroutine owns the objects it put:
// they must keep their bytes and blocks whatever the others do.
func regionOnce(r *Run, c ConcCase, dir string) error {
	path := filepath.Join(dir, "region.lusf")
	st, err := storage.CreateCannylsStorage(path, c.G.capacity(), c.G.ratio())
	if err != nil {
		return violate("create-failed", "%v", err)
	}
	st.Close()
	f, header, err := nvm.Open(path)
	if err != nil {
		return violate("open-failed", "%v", err)
	}
	snap, err := nvm.NewSnapshotNVM(f)
	if err != nil {
		return violate("open-failed", "%v", err)
	}
	defer snap.Close()
	_, dev := header.SplitRegion(snap)
	alloc := allocator.BuildJudyAlloc(uint32(c.G.D))
	region := storage.NewDataRegion(alloc, dev)
	setHook(delayHook(c.Delay))
	type own struct {
		p    portion.DataPortion
		data []byte
	}
	left := make([][]own, len(c.Threads))
	errs := make([]error, len(c.Threads))
	start := make(chan struct{})
	var wg sync.WaitGroup
	var t0 = time.Now()
	var spans = make([][2]time.Duration, len(c.Threads))
	for g := range c.Threads {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			spans[g][0] = time.Since(t0)
			errs[g] = protect(func() error {
				var mine []own
				for _, op := range c.Threads[g] {
					pause(c.Jitter)
					i := -1
					if len(mine) > 0 {
						i = int(op.ID) % len(mine)
					}
					switch {
					case op.K == "put":
						data := payload(op.Seed, op.Size)
						p, err := region.Put(mkLump(data, op.Mis))
						if err != nil {
							if isStorageFull(err) {
								continue
							}
							return violate("region-put", "Put of %d bytes: %v", op.Size, err)
						}
						if p.End() > uint64(c.G.D) || int(p.Len) != blocksFor(op.Size) {
							return violate("region-put", "Put of %d bytes got blocks [%d,%d)", op.Size, p.Start.AsU64(), p.End())
						}
						mine = append(mine, own{p, data})
					case i < 0:
					case op.K == "del":
						region.Release(mine[i].p)
						mine = append(mine[:i], mine[i+1:]...)
					case op.K == "pwo":
						data := payload(op.Seed, op.Size)
						err := region.Update(mine[i].p, op.Off, append([]byte(nil), data...))
						fits := int(op.Off)+op.Size <= len(mine[i].data)
						if fits != (err == nil) {
							return violate("region-update", "Update of %d bytes at %d of an object of %d: %v", op.Size, op.Off, len(mine[i].data), err)
						}
						if fits {
							copy(mine[i].data[op.Off:], data)
						}
					default:
						l, err := region.Get(mine[i].p)
						if err != nil {
							return violate("region-get", "Get of an object of %d bytes: %v", len(mine[i].data), err)
						}
						if d := diffBytes(l.AsBytes(), mine[i].data); d != "equal" {
							return violate("region-bytes", "Get of an object at blocks [%d,%d): %s", mine[i].p.Start.AsU64(), mine[i].p.End(), d)
						}
						if n, err := region.GetSize(mine[i].p); err != nil || int(n) != len(mine[i].data) {
							return violate("region-size", "GetSize of an object of %d bytes: %d, %v", len(mine[i].data), n, err)
						}
					}
				}
				left[g] = mine
				return nil
			})
			spans[g][1] = time.Since(t0)
		}(g)
	}
	close(start)
	wg.Wait()
	setHook(nil)
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	used := make([]bool, c.G.D)
	n := 0
	for _, mine := range left {
		for _, o := range mine {
			for b := o.p.Start.AsU64(); b < o.p.End(); b++ {
				if used[b] {
					return violate("region-overlap", "block %d belongs to two objects", b)
				}
				used[b] = true
				n++
			}
			l, err := region.Get(o.p)
			if err != nil {
				return violate("region-get", "Get of an object of %d bytes: %v", len(o.data), err)
			}
			if d := diffBytes(l.AsBytes(), o.data); d != "equal" {
				return violate("region-bytes", "Get of an object at blocks [%d,%d): %s", o.p.Start.AsU64(), o.p.End(), d)
			}
		}
	}
	if int(alloc.FreeCount()) != c.G.D-n {
		return violate("region-free", "%d blocks are free, the objects leave %d", alloc.FreeCount(), c.G.D-n)
	}
	r.Label("data-region-alone")
	for g := range spans {
		for h := range spans[:g] {
			if spans[g][0] < spans[h][1] && spans[h][0] < spans[g][1] {
				r.NonTrivial()
			}
		}
	}
	return nil
}

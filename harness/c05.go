package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/lumpindex"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage/allocator"
	"pgregory.net/rapid"
)

const maxChunk = 0xFFFFFF

// AllocOp is one step of an allocator history.
//
//	alloc   N blocks
//	fit     as many blocks as the K-th free run has (if at most 65535), plus D
//	leave   all but N blocks of the K-th free run (by allocations of at most 65535)
//	drain   N allocations of 65535 blocks
//	rel     the K-th granted range;   relall  all of them, in an order given by K
//	restore rebuild from the granted ranges (with N unrelated journal entries in the index)
//	bits    occupancy in areas of N blocks over K/1000 of the capacity
type AllocOp struct {
	K string
	N int `json:",omitempty"`
	I int `json:",omitempty"`
	D int `json:",omitempty"`
}

// AllocCase is a capacity, initially granted ranges (gap, length)... and a history.
type AllocCase struct {
	Cap   uint64
	BS    int // block size in units of 512
	Extra int `json:",omitempty"` // bytes of capacity beyond the last whole block
	Pre   [][2]uint64
	Ops   []AllocOp
}

type ivl struct{ s, e uint64 }

type allocSUT struct {
	name    string
	judy    bool
	a       allocator.DataPortionAlloc
	cap     uint64
	bs      block.BlockSize
	extra   int
	granted []ivl // sorted
	used    uint64
	fresh   bool // built, not used yet
}

func (s *allocSUT) free() []ivl {
	var out []ivl
	pos := uint64(0)
	for _, g := range s.granted {
		if g.s > pos {
			out = append(out, ivl{pos, g.s})
		}
		pos = g.e
	}
	if pos < s.cap {
		out = append(out, ivl{pos, s.cap})
	}
	return out
}

func largest(f []ivl) uint64 {
	m := uint64(0)
	for _, x := range f {
		if x.e-x.s > m {
			m = x.e - x.s
		}
	}
	return m
}

func (s *allocSUT) alloc(n int) (bool, error) {
	p, err := s.a.Allocate(uint16(n))
	if err == nil {
		s.fresh = false
	}
	if err != nil {
		if !isStorageFull(err) {
			return false, violate("alloc-error", "%s: Allocate(%d) failed with %v, not with StorageFull", s.name, n, err)
		}
		if m := largest(s.free()); m >= uint64(n) {
			return false, violate("alloc-refused", "%s: Allocate(%d) was refused although %d contiguous blocks are free", s.name, n, m)
		}
		return false, nil
	}
	if int(p.Len) != n {
		return false, violate("alloc-length", "%s: Allocate(%d) granted %d blocks", s.name, n, p.Len)
	}
	g := ivl{p.Start.AsU64(), p.Start.AsU64() + uint64(p.Len)}
	if g.e > s.cap {
		return false, violate("alloc-outside", "%s: Allocate(%d) granted [%d,%d) of %d blocks", s.name, n, g.s, g.e, s.cap)
	}
	i := sort.Search(len(s.granted), func(i int) bool { return s.granted[i].s >= g.s })
	if i > 0 && s.granted[i-1].e > g.s || i < len(s.granted) && s.granted[i].s < g.e {
		return false, violate("alloc-overlap", "%s: Allocate(%d) granted [%d,%d), which overlaps a granted range", s.name, n, g.s, g.e)
	}
	s.granted = append(s.granted, ivl{})
	copy(s.granted[i+1:], s.granted[i:])
	s.granted[i] = g
	s.used += uint64(n)
	return true, nil
}

func (s *allocSUT) release(i int) {
	g := s.granted[i]
	s.granted = append(s.granted[:i], s.granted[i+1:]...)
	s.used -= g.e - g.s
	s.fresh = false
	s.a.Release(portion.NewDataPortion(g.s, uint16(g.e-g.s)))
}

func (s *allocSUT) check() error {
	if f := s.a.FreeCount(); f != s.cap-s.used {
		return violate("alloc-freecount", "%s: FreeCount()=%d, %d of %d blocks are free", s.name, f, s.cap-s.used, s.cap)
	}
	if s.fresh {
		return nil // the builders for tests set the maximum with the first operation
	}
	m, got := largest(s.free()), s.a.MaxSegmentSize()
	if m <= maxChunk && got != m || m > maxChunk && (got > m || got < maxChunk/2+1) {
		return violate("alloc-max", "%s: MaxSegmentSize()=%d, the largest free run has %d blocks", s.name, got, m)
	}
	return nil
}

func (s *allocSUT) bits(n, total uint64) error {
	got := s.a.GetAllocationBitStatus(n, total)
	if uint64(len(got)) != total/n {
		return violate("alloc-bits", "%s: GetAllocationBitStatus(%d,%d) has %d entries", s.name, n, total, len(got))
	}
	occ := make([]int, total/n)
	for _, g := range s.granted {
		for b := g.s; b < g.e && b/n < uint64(len(occ)); b++ {
			occ[b/n]++
		}
	}
	for i, o := range occ {
		if math.Abs(got[i]-float64(o)/float64(n)) > 1e-9 {
			return violate("alloc-bits", "%s: GetAllocationBitStatus(%d,%d)[%d]=%v, %d of %d blocks are occupied", s.name, n, total, i, got[i], o, n)
		}
	}
	return nil
}

// restore rebuilds the allocator from an index holding the granted ranges.
func (s *allocSUT) restore(noise, order int) error {
	idx := lumpindex.NewIndex()
	defer idx.Free()
	for k := range s.granted {
		j := (k*7919 + order) // ids in another order than the ranges
		g := s.granted[k]
		idx.InsertDataPortion(lump.FromU64(0, uint64(j)*2654435761%(1<<50)), portion.NewDataPortion(g.s, uint16(g.e-g.s)))
	}
	for k := 0; k < noise; k++ {
		idx.InsertJournalPortion(lump.FromU64(0, 1<<60+uint64(k)), portion.NewJournalPortion(uint64(k*21), uint16(k)))
	}
	s.a.Free()
	bytes := s.cap*uint64(s.bs.AsU16()) + uint64(s.extra)
	if s.judy {
		a := allocator.NewJudyAlloc()
		if order%2 == 0 {
			a.RestoreFromIndexWithJudy(s.bs, bytes, idx.JudyDataPortions())
		} else {
			a.RestoreFromIndex(s.bs, bytes, idx.DataPortions())
		}
		s.a = a
	} else {
		a := allocator.NewBtreeAlloc()
		a.RestoreFromIndex(s.bs, bytes, idx.DataPortions())
		s.a = a
	}
	s.fresh = false
	return s.check()
}

func (s *allocSUT) step(op AllocOp) (moved bool, err error) {
	runs := func() []ivl { return s.free() }
	switch op.K {
	case "alloc":
		return s.alloc(op.N)
	case "fit":
		f := runs()
		if len(f) == 0 {
			return s.alloc(1)
		}
		x := f[op.I%len(f)]
		n := int64(x.e-x.s) + int64(op.D)
		if x.e-x.s > 70000 {
			n = 65535
		}
		if n < 1 || n > 65535 {
			return false, nil
		}
		return s.alloc(int(n))
	case "leave":
		f := runs()
		if len(f) == 0 {
			return false, nil
		}
		x := f[op.I%len(f)]
		for left := int64(x.e-x.s) - int64(op.N); left > 0 && left < 3*maxChunk; {
			n := left
			if n > 65535 {
				n = 65535
			}
			ok, err := s.alloc(int(n))
			if err != nil || !ok {
				return moved, err
			}
			moved = true
			left -= n
		}
		return moved, nil
	case "drain":
		for i := 0; i < op.N; i++ {
			ok, err := s.alloc(65535)
			if err != nil || !ok {
				return moved, err
			}
			moved = true
		}
		return moved, nil
	case "rel":
		if len(s.granted) == 0 {
			return false, nil
		}
		s.release(op.I % len(s.granted))
		return true, nil
	case "relall":
		for i := op.I; len(s.granted) > 0; i = i*31 + 7 {
			if i < 0 {
				i = -i
			}
			s.release(i % len(s.granted))
		}
		return true, nil
	case "restore":
		return false, s.restore(op.N, op.I)
	case "bits":
		if s.cap > 1<<14 {
			return false, nil
		}
		total := s.cap * uint64(op.I) / 1000
		if op.I >= 1000 {
			total = s.cap
		}
		return false, s.bits(uint64(op.N), total)
	}
	return false, fmt.Errorf("unknown op %q", op.K)
}

var c05Kinds = expand([]weighted{{"alloc", 10}, {"fit", 6}, {"leave", 2}, {"rel", 14}, {"relall", 1}, {"restore", 2}, {"bits", 2}, {"drain", 1}})

func genAllocCase(t *rapid.T, tier string) AllocCase {
	var c AllocCase
	c.BS = rapid.SampledFrom([]int{1, 1, 1, 2, 8, 127}).Draw(t, "bs")
	if rapid.Bool().Draw(t, "extra?") {
		c.Extra = rapid.IntRange(0, c.BS*512-1).Draw(t, "extra")
	}
	kind := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 2, 3}).Draw(t, "capkind")
	maxOps := 60
	switch kind {
	case 0:
		c.Cap = uint64(rapid.IntRange(1, 400).Draw(t, "cap"))
	case 1:
		c.Cap = uint64(rapid.IntRange(400, 200000).Draw(t, "cap"))
	case 2:
		c.Cap = uint64(int(maxChunk)*rapid.IntRange(1, 3).Draw(t, "chunks") + rapid.IntRange(-300, 300).Draw(t, "capdelta"))
		maxOps = 25
	default:
		c.Cap = uint64(1<<40 - 1 - rapid.IntRange(0, 100).Draw(t, "capdelta"))
		maxOps = 12
	}
	big := c.Cap > 1<<20
	// initial grants
	pos := uint64(0)
	npre := rapid.IntRange(0, 6).Draw(t, "npre")
	for i := 0; i < npre; i++ {
		var gap uint64
		if big {
			switch rapid.IntRange(0, 2).Draw(t, "gapkind") {
			case 0:
				gap = uint64(rapid.IntRange(0, 300).Draw(t, "gap"))
			case 1:
				gap = uint64(maxChunk + rapid.IntRange(-300, 300).Draw(t, "gap"))
			default:
				gap = uint64(rapid.IntRange(0, 2*maxChunk).Draw(t, "gap"))
			}
		} else {
			gap = uint64(rapid.IntRange(0, int(c.Cap)/4+1).Draw(t, "gap"))
		}
		l := uint64(rapid.IntRange(1, 200).Draw(t, "len"))
		if rapid.IntRange(0, 5).Draw(t, "long") == 5 {
			l = uint64(rapid.IntRange(60000, 65535).Draw(t, "len"))
		}
		if pos+gap+l > c.Cap {
			break
		}
		c.Pre = append(c.Pre, [2]uint64{gap, l})
		pos += gap + l
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) AllocOp {
		op := AllocOp{K: rapid.SampledFrom(c05Kinds).Draw(t, "k")}
		switch op.K {
		case "alloc":
			hi := int(min(c.Cap/3+2, 65535))
			op.N = rapid.IntRange(1, min(hi, 40)).Draw(t, "n")
			if rapid.IntRange(0, 5).Draw(t, "nk") == 5 {
				op.N = rapid.IntRange(1, hi).Draw(t, "n")
			}
		case "fit":
			op.I, op.D = rapid.IntRange(0, 20).Draw(t, "i"), rapid.IntRange(-1, 1).Draw(t, "d")
		case "leave":
			op.I, op.N = rapid.IntRange(0, 20).Draw(t, "i"), rapid.IntRange(0, 300).Draw(t, "n")
		case "drain":
			op.N = rapid.IntRange(1, 260).Draw(t, "n")
		case "rel", "relall":
			op.I = rapid.IntRange(0, 1000).Draw(t, "i")
		case "restore":
			op.N, op.I = rapid.IntRange(0, 4).Draw(t, "n"), rapid.IntRange(0, 3).Draw(t, "i")
		case "bits":
			op.N, op.I = rapid.IntRange(1, 40).Draw(t, "n"), rapid.SampledFrom([]int{1000, 1000, 500, 10, 999}).Draw(t, "i")
		}
		return op
	}), 1, maxOps).Draw(t, "ops")
	return c
}

func execAlloc(r *Run, c AllocCase) error {
	bs, err := block.NewBlockSize(uint16(c.BS * 512))
	if err != nil {
		return violate("blocksize", "NewBlockSize(%d): %v", c.BS*512, err)
	}
	if c.Cap > maxChunk {
		r.Label("beyond-24-bit")
	}
	for _, judy := range []bool{true, false} {
		s := &allocSUT{judy: judy, name: "btree allocator", cap: c.Cap, bs: bs, extra: c.Extra}
		if judy {
			s.name = "judy allocator"
		}
		pos := uint64(0)
		for _, p := range c.Pre {
			pos += p[0]
			s.granted = append(s.granted, ivl{pos, pos + p[1]})
			pos += p[1]
			s.used += p[1]
		}
		if len(c.Pre) == 0 && c.Cap <= maxChunk {
			if judy {
				s.a = allocator.BuildJudyAlloc(uint32(c.Cap))
			} else {
				s.a = allocator.BuildBtreeDataPortionAlloc(uint32(c.Cap))
			}
			s.fresh = true
		} else {
			s.a = allocator.NewJudyAlloc()
			if err := s.restore(0, len(c.Ops)); err != nil {
				s.a.Free()
				return at(err, -1)
			}
		}
		refused, released := false, false
		for i, op := range c.Ops {
			moved, err := s.step(op)
			if err == nil {
				err = s.check()
			}
			if err != nil {
				return at(err, i)
			}
			if !moved && (op.K == "alloc" || op.K == "fit" || op.K == "drain") {
				refused = true
				r.Label("refusal")
			}
			if moved && op.K == "rel" {
				released = true
			}
			if op.K == "restore" && len(s.granted) > 1 {
				r.Label("rebuilt")
			}
			if op.K == "bits" && c.Cap <= 1<<14 {
				r.Label("occupancy")
			}
		}
		if len(s.free()) >= 2 && released || refused && released {
			r.NonTrivial()
		}
		// everything released gives one run again
		for len(s.granted) > 0 {
			s.release(len(s.granted) / 2)
		}
		if err := s.check(); err != nil {
			return at(err, len(c.Ops))
		}
		s.a.Free()
	}
	r.Count("operations", int64(2*len(c.Ops)))
	return nil
}

func init() {
	register(&PBT[AllocCase]{
		Id: "C05",
		RuleText: "rapid draws a capacity (1..400 blocks mostly, also up to 200000, around multiples of 2^24-1 and up to 2^40-1), initially granted ranges with gaps and up to 60 allocations (also of exactly a free run, +-1), releases, rebuilds and occupancy queries; " +
			"both allocators run the case, each against a sorted list of its granted ranges: length, inside, disjoint, refusal only without a long enough run, free count, largest run, occupancy, state after rebuild, one run when all is released. " +
			"Non-trivial: ranges were released and the free space was in several pieces or a request was refused.",
		Assume: []string{"a free run of more than 2^24-1 blocks may be reported as any length between half of that and its own"},
		Gen:    genAllocCase, Exec: execAlloc,
		Quick: Budget{Cases: 30000, Seconds: 40}, Thorough: Budget{Cases: 1000000, Seconds: 600},
	})
}

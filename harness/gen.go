package main

import (
	"math"

	"pgregory.net/rapid"
)

// OpsCase is a store geometry and a list of operations.
type OpsCase struct {
	G   Geom
	Ops []Op
}

type weighted struct {
	k string
	n int
}

func expand(ws []weighted) []string {
	var out []string
	for _, w := range ws {
		for i := 0; i < w.n; i++ {
			out = append(out, w.k)
		}
	}
	return out
}

var idPool = []uint64{1, 2, 3, 0, 4, 5, 7, 8, 100, 101, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}

// genIDs draws the set of ids a case uses (small sets make overwrites and deletes frequent).
func genIDs(t *rapid.T) []uint64 {
	n := rapid.IntRange(1, 12).Draw(t, "nids")
	k := rapid.IntRange(0, 2).Draw(t, "idkind")
	var ids []uint64
	for i := 0; i < n; i++ {
		switch k {
		case 0:
			ids = append(ids, uint64(i+1))
		case 1:
			ids = append(ids, idPool[(i*7+3)%len(idPool)])
		default:
			ids = append(ids, rapid.SampledFrom(idPool).Draw(t, "id"))
		}
	}
	return ids
}

// genSize draws an object size around block boundaries, up to maxBlocks blocks.
func genSize(t *rapid.T, maxBlocks int) int {
	b := rapid.IntRange(0, maxBlocks).Draw(t, "blocks")
	d := rapid.IntRange(-4, 4).Draw(t, "delta")
	if rapid.IntRange(0, 2).Draw(t, "sizekind") == 2 {
		d = rapid.IntRange(-511, 511).Draw(t, "delta2")
	}
	s := b*blk - 2 + d
	if s < 0 {
		s = 0
	}
	return s
}

func genEmbedSize(t *rapid.T, ring int) int {
	switch rapid.IntRange(0, 9).Draw(t, "embedkind") {
	case 0, 1, 2, 3, 4:
		return rapid.IntRange(0, 40).Draw(t, "esize")
	case 5, 6, 7:
		return rapid.IntRange(0, 300).Draw(t, "esize")
	case 8:
		return rapid.IntRange(0, 1200).Draw(t, "esize")
	default:
		return rapid.IntRange(0, ring/2+1).Draw(t, "esize")
	}
}

func genGeom(t *rapid.T, jmax, dmax int) Geom {
	return Geom{J: rapid.IntRange(2, jmax).Draw(t, "J"), D: rapid.IntRange(1, dmax).Draw(t, "D")}
}

func genPayloadSeed(t *rapid.T) int { return rapid.IntRange(0, 60).Draw(t, "seed") }

func genMis(t *rapid.T) int {
	if rapid.IntRange(0, 3).Draw(t, "mis?") != 3 {
		return 0
	}
	return rapid.IntRange(1, 511).Draw(t, "mis")
}

// genOp draws one operation.
func genOp(t *rapid.T, kinds []string, ids []uint64, g Geom, maxBlocks int) Op {
	k := rapid.SampledFrom(kinds).Draw(t, "kind")
	op := Op{K: k}
	pick := func() uint64 { return rapid.SampledFrom(ids).Draw(t, "id") }
	bound := func() uint64 {
		b := pick()
		switch rapid.IntRange(0, 5).Draw(t, "bkind") {
		case 0:
			return b + 1
		case 1:
			return b - 1
		case 2:
			return rapid.SampledFrom(idPool).Draw(t, "bound")
		}
		return b
	}
	switch k {
	case "put":
		op.ID, op.Size, op.Seed, op.Mis = pick(), genSize(t, maxBlocks), genPayloadSeed(t), genMis(t)
	case "embed":
		op.ID, op.Size, op.Seed = pick(), genEmbedSize(t, (g.J-1)*blk), genPayloadSeed(t)
	case "pwo":
		op.ID, op.Size, op.Seed, op.Mis = pick(), genSize(t, maxBlocks), genPayloadSeed(t), genMis(t)
		op.Off = uint32(genSize(t, maxBlocks))
		if rapid.Bool().Draw(t, "reserve?") {
			op.Len = uint32(genSize(t, maxBlocks))
		}
	case "gwo":
		op.ID, op.Off, op.Len = pick(), uint32(genSize(t, maxBlocks)), uint32(genSize(t, maxBlocks))
	case "del", "get", "gsz", "rerec":
		op.ID = pick()
	case "delr":
		op.ID, op.End = bound(), bound()
		if op.ID > op.End && rapid.IntRange(0, 3).Draw(t, "swap") > 0 {
			op.ID, op.End = op.End, op.ID
		}
	case "query":
		op.ID, op.End, op.N = bound(), bound(), rapid.IntRange(0, 6).Draw(t, "limit")
	case "side":
		op.N = rapid.IntRange(0, 20).Draw(t, "n")
	case "autogc":
		op.N = rapid.IntRange(0, 1).Draw(t, "on")
	}
	return op
}

// genOps draws a case. Lengths vary: many short histories, some long enough for several laps of the journal.
func genOps(t *rapid.T, kinds []string, jmax, dmax, maxOps int) OpsCase {
	g := genGeom(t, jmax, dmax)
	ids := genIDs(t)
	mb := g.D
	if mb > 6 {
		mb = 6
	}
	if rapid.IntRange(0, 5).Draw(t, "bigobj") == 5 {
		mb = g.D + 1
	}
	lo := 1
	if rapid.IntRange(0, 2).Draw(t, "long") == 2 {
		lo = maxOps / 2
	}
	ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op { return genOp(t, kinds, ids, g, mb) }), lo, maxOps).Draw(t, "ops")
	return OpsCase{G: g, Ops: genSpin(t, ids, g, ops)}
}

// expandBulk lists the N small operations of a "bulk" operation on the ids ID..ID+End-1, embedded objects having up to
// Size bytes. Seed chooses what they are.
func expandBulk(op Op) []Op {
	ops := make([]Op, 0, op.N)
	for i := 0; i < op.N; i++ {
		x := mix(uint64(op.Seed), uint64(i))
		o := Op{K: "embed", ID: op.ID + x%op.End, Size: int(x >> 20 % uint64(op.Size+1)), Seed: int(x >> 40 % 1000)}
		switch op.Seed % 4 {
		case 0: // one after another
			o.ID = op.ID + uint64(i)%op.End
		case 1:
			if x>>32%4 == 0 {
				o.K = "del"
			}
		case 2:
			switch x >> 32 % 8 {
			case 0, 1:
				o.K = "del"
			case 2:
				o.K, o.Size = "put", o.Size*8
			}
		default:
			o.K, o.ID = "del", op.ID+uint64(i)%op.End
		}
		ops = append(ops, o)
	}
	return ops
}

// genBulk draws a case with a big journal and thousands of small operations: more than any internal queue, countdown or table
// holds at once.
func genBulk(t *rapid.T, kinds []string, minJ, maxJ, ids, maxN int) OpsCase {
	c := OpsCase{G: Geom{J: rapid.IntRange(minJ, maxJ).Draw(t, "J"), D: rapid.IntRange(20, 400).Draw(t, "D")}}
	base := rapid.SampledFrom([]uint64{1, 1 << 40, 1<<64 - 20000}).Draw(t, "base")
	few := []uint64{base, base + 1, base + 100, base + uint64(ids) - 1}
	gen := rapid.Custom(func(t *rapid.T) Op {
		k := rapid.SampledFrom(append([]string{"bulk", "bulk", "bulk"}, kinds...)).Draw(t, "kind")
		if k != "bulk" {
			op := genOp(t, []string{k}, few, c.G, 3)
			if k == "side" && rapid.Bool().Draw(t, "much") {
				op.N *= 600
			}
			if k == "embed" {
				op.Size %= 500
			}
			return op
		}
		n := rapid.IntRange(1, maxN).Draw(t, "n")
		if rapid.Bool().Draw(t, "many") {
			n = maxN/2 + n/2
		}
		return Op{K: "bulk", ID: base, End: uint64(rapid.IntRange(1, ids).Draw(t, "range")), N: n, Size: rapid.IntRange(0, 9).Draw(t, "esize"),
			Seed: rapid.IntRange(0, 400).Draw(t, "mix")}
	})
	c.Ops = rapid.SliceOfN(gen, 3, 9).Draw(t, "ops")
	return c
}

// rare is true in about one of n cases, so that minimal cases are not rare.
func rare(t *rapid.T, n int) bool { return rapid.IntRange(1, n).Draw(t, "rare") == n }

// uniform draws a number of [lo,hi] without preference for small ones (0 comes from the simplest draw if lo is 0).
func uniform(t *rapid.T, lo, hi int, name string) int {
	x := rapid.IntRange(0, 1<<20).Draw(t, name)
	if x == 0 || hi <= lo {
		return lo
	}
	return lo + int(mix(uint64(x), 77)%uint64(hi-lo+1))
}

// genSpin puts small operations before the others in some cases, so that the journal's live records begin anywhere in the ring
// and it wraps around during the operations that follow.
func genSpin(t *rapid.T, ids []uint64, g Geom, ops []Op) []Op {
	if g.J < 3 || rapid.IntRange(0, 2).Draw(t, "spin") == 0 {
		return ops
	}
	op := Op{K: "bulk", ID: ids[0], End: uint64(rapid.IntRange(1, 3).Draw(t, "range")), Size: rapid.IntRange(0, 60).Draw(t, "esize"), Seed: rapid.IntRange(0, 400).Draw(t, "mix") * 4}
	op.N = uniform(t, 0, (g.J-1)*blk*5/2/(15+op.Size/2), "n")
	return append([]Op{op}, ops...)
}

// genHuge draws a short case with objects of up to 65535 blocks, the largest possible, in a data region that holds one or two.
func genHuge(t *rapid.T, kinds []string) OpsCase {
	c := OpsCase{G: Geom{J: rapid.IntRange(4, 12).Draw(t, "J")}}
	c.G.D = rapid.SampledFrom([]int{65535, 131070}).Draw(t, "D") + rapid.IntRange(-3, 5).Draw(t, "dD")
	ids := []uint64{1, 2, 3}
	gen := rapid.Custom(func(t *rapid.T) Op {
		op := genOp(t, kinds, ids, c.G, 4)
		size := func(n int) int {
			switch rapid.IntRange(0, 2).Draw(t, "huge") {
			case 0:
				return 65535*blk - 2 - rapid.SampledFrom([]int{0, 1, 2, 510, 511, 512, 513, 1024}).Draw(t, "below")
			case 1:
				return rapid.IntRange(0, 65535).Draw(t, "hblocks")*blk - 2 + n%3
			}
			return n
		}
		switch op.K {
		case "put":
			op.Size = max(0, size(op.Size))
		case "gwo", "pwo":
			op.Off = uint32(max(0, size(int(op.Off))))
			if rapid.Bool().Draw(t, "hlen") {
				op.Len = uint32(max(0, size(int(op.Len))))
			}
		}
		return op
	})
	c.Ops = rapid.SliceOfN(gen, 2, 9).Draw(t, "ops")
	return c
}

// genFar draws a case in a store of several GB to TB (a sparse file), where small gaps between objects that are there from the
// beginning make the allocator use blocks around 2^16, 2^23 (4 GB), 2^24, 2^32 (2 TB) and at the very end.
func genFar(t *rapid.T, kinds []string, maxOps int) OpsCase {
	c := OpsCase{G: Geom{J: rapid.IntRange(8, 24).Draw(t, "J")}}
	end := uint64(0)
	id := rapid.SampledFrom([]uint64{1, 1000, 1<<64 - 9}).Draw(t, "base")
	pos := []uint64{1 << 16, 1 << 22, 1 << 23, 1<<24 - 1, 1 << 24, 1 << 25, 1 << 31, 1 << 32}
	n := rapid.IntRange(1, 3).Draw(t, "places")
	for i := 0; i < n; i++ {
		p := rapid.SampledFrom(pos).Draw(t, "pos") - uint64(rapid.IntRange(0, 12).Draw(t, "below"))
		if p < end {
			continue
		}
		l := rapid.SampledFrom([]int{1, 2, 7, 200, 3000}).Draw(t, "len")
		c.G.Place = append(c.G.Place, Placed{ID: id, Start: p, Len: l})
		id++
		end = p + uint64(l) + uint64(rapid.IntRange(1, 30).Draw(t, "gap"))
		if rapid.Bool().Draw(t, "closegap") {
			c.G.Place = append(c.G.Place, Placed{ID: id, Start: end, Len: 1})
			id++
			end++
		}
	}
	c.G.D = int(end) + rapid.SampledFrom([]int{0, 1, 9, 70000, 1<<24 + 3}).Draw(t, "rest")
	ids := append(genIDs(t), c.G.Place[0].ID)
	var ks []string
	for _, k := range kinds {
		if k != "snapc" && k != "snapd" {
			ks = append(ks, k)
		}
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		op := genOp(t, ks, ids, c.G, 12)
		if op.K == "edge" {
			op.ID, op.N, op.Off = rapid.SampledFrom(ids).Draw(t, "id"), rapid.IntRange(0, 1).Draw(t, "write"), uint32(rapid.IntRange(0, 6).Draw(t, "anchor"))
			op.Len, op.Size, op.End = uint32(rapid.IntRange(0, 5).Draw(t, "span")), rapid.IntRange(-2, 2).Draw(t, "d1"), uint64(rapid.IntRange(0, 4).Draw(t, "d2"))
		}
		return op
	}), maxOps/4, maxOps).Draw(t, "ops")
	return c
}

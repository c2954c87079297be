package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"io"
	"os"
	"path/filepath"

	"github.com/thesues/cannyls-go/nvm"
	"pgregory.net/rapid"
)

// C09Snap is a store with a snapshot, changes that make the snapshot save regions, and damage to the snapshot's file.
type C09Snap struct {
	J, D   int
	Sizes  []int // objects 1, 2, ... in blocks
	Change []Op  // after the snapshot
	Damage []SnapDamage
}

// SnapDamage is one damage: "table" (used entries), "free" (unused table space), "hdr", "cut", "grow" (bytes after the end).
type SnapDamage struct {
	Where    string
	Off, Len int
	How      string // "bit", "fill", "copy" (one entry over another)
	Val      int
}

func genC09Snap(t *rapid.T) *C09Snap {
	c := &C09Snap{J: uniform(t, 3, 9, "sj")}
	n := uniform(t, 1, 7, "objects")
	total := 0
	for i := 0; i < n; i++ {
		b := uniform(t, 1, 1100, "blocks")
		if rare(t, 3) {
			b = uniform(t, 1, 30, "blocks")
		}
		c.Sizes = append(c.Sizes, b)
		total += b
	}
	c.D = total + uniform(t, 1, 1500, "spare")
	c.Change = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		id := uint64(1 + uniform(t, 0, n-1, "id"))
		switch rapid.IntRange(0, 4).Draw(t, "change") {
		case 0:
			return Op{K: "del", ID: id}
		case 1:
			return Op{K: "put", ID: id, Size: uniform(t, 0, 800*blk, "size"), Seed: genPayloadSeed(t)}
		case 2:
			return Op{K: "embed", ID: id, Size: uniform(t, 0, 300, "size"), Seed: genPayloadSeed(t)}
		}
		off := uniform(t, 0, c.Sizes[id-1]*blk, "off")
		return Op{K: "pwo", ID: id, Size: uniform(t, 0, 600, "size"), Off: uint32(off), Seed: genPayloadSeed(t)}
	}), 1, 10).Draw(t, "changes")
	c.Damage = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SnapDamage {
		return SnapDamage{Where: rapid.SampledFrom([]string{"table", "table", "table", "free", "hdr", "cut", "grow"}).Draw(t, "where"),
			Off: uniform(t, 0, 4000, "off"), Len: uniform(t, 1, 30, "len"), How: rapid.SampledFrom([]string{"bit", "bit", "fill", "copy"}).Draw(t, "how"), Val: uniform(t, 0, 255, "val")}
	}), 1, 6).Draw(t, "damages")
	return c
}

// apply returns the damaged file; used is the number of used entries, data the start of the saved regions.
func (d SnapDamage) apply(raw []byte, used, data int) []byte {
	out := append([]byte(nil), raw...)
	lo, hi := 512, 512+12*used
	switch d.Where {
	case "free":
		lo, hi = hi, data
	case "hdr":
		lo, hi = 0, 66
	case "cut":
		switch d.Val % 3 {
		case 0:
			return out[:d.Off%len(out)]
		case 1:
			return out[:d.Off%min(data, len(out))]
		}
		n := d.Off%used<<20 + data + d.Len
		return out[:min(n, len(out))]
	case "grow": // never a whole region: what is not complete was never used
		return append(out, payload(d.Val, 1+d.Off*200)...)
	}
	if lo >= hi {
		return out
	}
	p := lo + d.Off%(hi-lo)
	switch d.How {
	case "bit":
		out[p] ^= 1 << (d.Val % 8)
	case "fill":
		for i := p; i < p+d.Len && i < hi; i++ {
			out[i] = byte(d.Val)
		}
	case "copy":
		if used > 1 && d.Where == "table" { // an entry's check sum on another entry's contents
			a, b := d.Off%used, d.Val%used
			copy(out[512+12*a+4:512+12*a+12], raw[512+12*b+4:512+12*b+12])
		} else {
			out[p] = byte(d.Val)
		}
	}
	return out
}

func execC09Snap(r *Run, c C09Snap) error {
	nvm.DEFAULT_REGION_SHIFT = 20
	defer func() { nvm.DEFAULT_REGION_SHIFT = 25 }()
	w, err := newWorld(r, Geom{J: c.J, D: c.D}, "s.lusf")
	if err != nil {
		return err
	}
	for i, b := range c.Sizes {
		if err := w.Step(Op{K: "put", ID: uint64(i + 1), Size: b*blk - 2, Seed: i}); err != nil {
			return err
		}
	}
	if err := w.Step(Op{K: "snapc"}); err != nil {
		return err
	}
	img := mustRead(w.Path)
	for i, op := range c.Change {
		if err := w.Step(op); err != nil {
			return at(err, i)
		}
	}
	w.Close()
	names, _ := filepath.Glob(filepath.Join(r.Dir, "s_*_lusf.snapshot"))
	if len(names) != 1 {
		return violate("snapshot", "snapshot files: %q", names)
	}
	raw, store := mustRead(names[0]), mustRead(w.Path)
	data := int(binary.BigEndian.Uint64(raw[34:42])) + 512
	used := 0
	if len(raw) > data {
		used = (len(raw) - data) >> 20
	}
	if used == 0 {
		r.Label("snap-nothing-saved")
		return nil
	}
	r.Label("snap-damage")
	for i, d := range c.Damage {
		bad := d.apply(raw, used, data)
		if bytes.Equal(bad, raw) {
			continue
		}
		if err := os.WriteFile(names[0], bad, 0644); err != nil {
			harnessFail(err)
		}
		if err := os.WriteFile(w.Path, store, 0644); err != nil {
			harnessFail(err)
		}
		res, err := openDamagedSnap(r, w, d, bad, raw, img, used, names[0])
		if err != nil {
			return at(err, i)
		}
		r.Label("snap-" + d.Where + "-" + res)
		r.Count("snapshot damages", 1)
		if res == "refused" {
			r.NonTrivial()
		}
	}
	return nil
}

func openDamagedSnap(r *Run, w *World, d SnapDamage, bad, raw, img []byte, used int, name string) (string, error) {
	fail := func(class, format string, a ...any) (string, error) {
		return "", violate(class, "damage %+v to a snapshot with %d saved regions: %s", d, used, fmt.Sprintf(format, a...))
	}
	st, err, viol := tryOpen(w.Path, w.G.capacity())
	if viol != nil {
		v := viol.(*Violation)
		return fail("snapshot-"+v.Class, "%s", v.Msg)
	}
	if err != nil {
		if d.Where == "free" || d.Where == "grow" {
			return fail("snapshot-refused-undamaged", "nothing that is used was damaged, but opening says: %v", err)
		}
		// without the damaged snapshot the store is as it was
		os.Remove(name)
		st, err := openBounded(w.Path, w.G.capacity())
		if err != nil {
			return fail("not-released", "after the refusal and without the snapshot: %v", err)
		}
		w2 := &World{R: r, Path: w.Path, G: w.G, St: st, Model: w.Model}
		defer w2.Close()
		if err := w2.checkAll(); err != nil {
			return fail("not-released", "after the refusal and without the snapshot: %v", err)
		}
		return "refused", nil
	}
	w2 := &World{R: r, Path: w.Path, G: w.G, St: st, Model: w.Model}
	defer w2.Close()
	if err := w2.checkAll(); err != nil {
		return fail("snapshot-damage-spread", "the store itself: %v", err)
	}
	exact := d.Where == "free" || d.Where == "grow"
	if d.Where == "table" {
		exact = true
		for i := 0; i < used; i++ {
			e := bad[512+12*i:][:12]
			if !bytes.Equal(e, raw[512+12*i:][:12]) && adler32.Checksum(e[4:]) == binary.BigEndian.Uint32(e) {
				return "undetectable", nil // another entry with a right check sum
			}
		}
	}
	if !exact { // the header has no check sum
		return "opened", nil
	}
	rd, err := st.GetSnapshotReader()
	if err != nil {
		return fail("snapshot-lost", "GetSnapshotReader: %v", err)
	}
	got, err := io.ReadAll(rd)
	if err != nil {
		return "unreadable", nil
	}
	if !bytes.Equal(got, img) {
		return fail("damaged-snapshot-accepted", "the store opened and its snapshot reads differently: %s", diffBytes(got, img))
	}
	return "exact", nil
}

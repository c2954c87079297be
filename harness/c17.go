package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"regexp"
	"sort"
	"testing/iotest"
	"unsafe"

	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/lumpindex"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/util"
	"github.com/thesues/cannyls-go/util/uint128"
	"pgregory.net/rapid"
)

// AbOp is one operation on an aligned buffer.
type AbOp struct {
	K string // resize, alignresize, align, truncate, write
	N int    `json:",omitempty"`
	S int    `json:",omitempty"`
}

// ConvCase holds the numbers, strings and buffers of one conversion case.
type ConvCase struct {
	A, B   uint64 // ids, addresses
	L1, L2 uint32 // lengths
	S      string // id in text
	Raw    []byte
	BS     int // block size / 512
	Pos    uint64
	// aligned buffer
	Src  int // 0: NewAlignedBytes, 1: FromBytes
	Size int
	Mis  int // misalignment of the source slice
	Cap  int // additional capacity of the source slice
	Ops  []AbOp
	Idx  []uint64 // packed index entries: id, start, len triples
}

func refused(f func()) (yes bool) {
	defer func() { yes = recover() != nil }()
	f()
	return
}

func cmp64(a, b uint64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

var hexRe = regexp.MustCompile(`^[0-9a-fA-F]+$`)

func checkIDs(r *Run, c ConvCase) error {
	for _, v := range []uint64{c.A, c.B} {
		id := lump.FromU64(0, v)
		if id.U64() != v {
			return violate("id-u64", "%d became %d", v, id.U64())
		}
		var be [8]byte
		binary.BigEndian.PutUint64(be[:], v)
		if !bytes.Equal(id.GetBytes(), be[:]) {
			return violate("id-bytes", "%d as bytes is %x", v, id.GetBytes())
		}
		if x, err := lump.FromBytes(be[:]); err != nil || x != id {
			return violate("id-bytes", "bytes %x became %v, %v", be, x, err)
		}
		var w bytes.Buffer
		if n, err := id.Write(&w); err != nil || n != 8 || !bytes.Equal(w.Bytes(), be[:]) {
			return violate("id-write", "%d was written as %x (%d, %v)", v, w.Bytes(), n, err)
		}
		if x, err := lump.FromString(id.String()); err != nil || x != id {
			return violate("id-string", "%d is %q, which is read as %v, %v", v, id.String(), x, err)
		}
		if id.IsMax() != (v == 1<<64-1) {
			return violate("id-max", "IsMax(%d)=%v", v, id.IsMax())
		}
		if v != 1<<64-1 && id.Inc().U64() != v+1 {
			return violate("id-inc", "Inc(%d)=%d", v, id.Inc().U64())
		}
	}
	if got := sign(lump.FromU64(0, c.A).Compare(lump.FromU64(0, c.B))); got != cmp64(c.A, c.B) {
		return violate("id-order", "Compare(%d,%d) is %d", c.A, c.B, got)
	}
	x, err := lump.FromString(c.S)
	var want uint64
	ok := hexRe.MatchString(c.S)
	if ok {
		n, _ := new(big.Int).SetString(c.S, 16)
		if ok = n.IsUint64(); ok {
			want = n.Uint64()
		}
	}
	if ok != (err == nil) || ok && x.U64() != want {
		return violate("id-parse", "FromString(%q) is %d, %v; expected %d, %v", c.S, x.U64(), err, want, ok)
	}
	if ok {
		r.Label("id-string-accepted")
	} else {
		r.Label("id-string-refused")
	}
	if x, err := lump.FromBytes(c.Raw); (err == nil) != (len(c.Raw) == 8) || err == nil && x.U64() != binary.BigEndian.Uint64(c.Raw) {
		return violate("id-bytes", "FromBytes(%x) is %v, %v", c.Raw, x, err)
	}
	return nil
}

func checkInts(c ConvCase) error {
	var b [8]byte
	v := c.A
	util.PutUINT64(b[:], v)
	if binary.BigEndian.Uint64(b[:]) != v || util.GetUINT64(b[:]) != v {
		return violate("int64", "%d is stored as %x and read as %d", v, b, util.GetUINT64(b[:]))
	}
	util.PutUINT32(b[:4], uint32(v))
	if binary.BigEndian.Uint32(b[:]) != uint32(v) || util.GetUINT32(b[:4]) != uint32(v) {
		return violate("int32", "%d is stored as %x and read as %d", uint32(v), b[:4], util.GetUINT32(b[:4]))
	}
	util.PutUINT16(b[:2], uint16(v))
	if binary.BigEndian.Uint16(b[:]) != uint16(v) || util.GetUINT16(b[:2]) != uint16(v) {
		return violate("int16", "%d is stored as %x and read as %d", uint16(v), b[:2], util.GetUINT16(b[:2]))
	}
	w := v & (1<<40 - 1)
	util.PutUINT40(b[:5], w)
	if got := util.GetUINT40(b[:5]); got != w || uint64(binary.BigEndian.Uint32(b[:4]))<<8|uint64(b[4]) != w {
		return violate("int40", "%d is stored as %x and read as %d", w, b[:5], got)
	}
	for _, n := range []int{0, 1, 3, 4, 6, 7} {
		if n != 5 && !refused(func() { util.PutUINT40(make([]byte, n), w) }) {
			return violate("int40", "a 40-bit number was stored in %d bytes", n)
		}
		if n != 4 && !refused(func() { util.PutUINT32(make([]byte, n), uint32(w)) }) {
			return violate("int32", "a 32-bit number was stored in %d bytes", n)
		}
		if n != 2 && !refused(func() { util.PutUINT16(make([]byte, n), uint16(w)) }) {
			return violate("int16", "a 16-bit number was stored in %d bytes", n)
		}
	}
	lo, hi := c.A, c.B
	if lo > hi {
		lo, hi = hi, lo
	}
	if util.Min(c.A, c.B) != lo || util.Max(c.A, c.B) != hi || util.Min32(c.L1, c.L2) != uint32(min(uint64(c.L1), uint64(c.L2))) {
		return violate("minmax", "Min(%d,%d)=%d Max=%d Min32(%d,%d)=%d", c.A, c.B, util.Min(c.A, c.B), util.Max(c.A, c.B), c.L1, c.L2, util.Min32(c.L1, c.L2))
	}
	// ReadFull over a reader that returns little at a time
	src := bytes.Repeat(append([]byte("x"), c.Raw...), 5)
	off := int(c.L1) % (len(src) + 3)
	n := int(c.L2) % (len(src) + 3)
	buf := make([]byte, n)
	got, err := util.ReadFull(shortReaderAt{src}, buf, int64(off))
	want := 0
	if off < len(src) {
		want = min(n, len(src)-off)
	}
	okErr := err == nil && want == n || want < n && (want == 0 && err == io.EOF || want > 0 && err == io.ErrUnexpectedEOF)
	if got != want || !okErr || !bytes.Equal(buf[:got], src[min(off, len(src)):min(off, len(src))+want]) {
		return violate("readfull", "ReadFull of %d bytes at %d of %d gave %d, %v", n, off, len(src), got, err)
	}
	return nil
}

// shortReaderAt returns at most 3 bytes at a time.
type shortReaderAt struct{ b []byte }

func (s shortReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(s.b)) {
		return 0, io.EOF
	}
	if len(p) > 3 {
		p = p[:3]
	}
	return iotest.DataErrReader(bytes.NewReader(s.b[off:])).Read(p)
}

func checkAddresses(c ConvCase) error {
	const max = 1<<40 - 1
	for _, v := range []uint64{c.A, c.B, c.A & max, c.B & max} {
		if v > max {
			if !refused(func() { address.AddressFromU64(v) }) {
				return violate("address-range", "address %d is accepted as %d", v, address.AddressFromU64(v))
			}
		} else if address.AddressFromU64(v).AsU64() != v {
			return violate("address", "address %d became %d", v, address.AddressFromU64(v))
		}
	}
	if address.AddressFromU32(c.L1).AsU64() != uint64(c.L1) {
		return violate("address", "address %d became %d", c.L1, address.AddressFromU32(c.L1))
	}
	a, b := c.A&max, c.B&max
	x, y := address.AddressFromU64(a), address.AddressFromU64(b)
	if a+b > max {
		if !refused(func() { x.Add(y) }) {
			return violate("address-add", "%d+%d=%d", a, b, x.Add(y))
		}
	} else if x.Add(y).AsU64() != a+b {
		return violate("address-add", "%d+%d=%d", a, b, x.Add(y))
	}
	if a < b {
		if !refused(func() { x.Sub(y) }) {
			return violate("address-sub", "%d-%d=%d", a, b, x.Sub(y))
		}
	} else if x.Sub(y).AsU64() != a-b {
		return violate("address-sub", "%d-%d=%d", a, b, x.Sub(y))
	}
	return nil
}

func checkPortions(c ConvCase, bs block.BlockSize) error {
	const max = 1<<40 - 1
	a, b := c.A&max, c.B&max
	l16 := uint16(c.L1)
	d := portion.NewDataPortion(a, l16)
	s, n := d.AsInts()
	bsz := uint64(bs.AsU16())
	off, size := d.ShiftBlockToBytes(bs)
	if s != a || n != l16 || d.Start.AsU64() != a || d.Len != l16 || d.End() != a+uint64(l16) || off != a*bsz ||
		uint64(size) != uint64(l16)*bsz || uint64(d.SizeOnDisk(bs)) != uint64(l16)*bsz || l16 > 0 && d.ShiftToPaddingBlock(bs) != (a+uint64(l16)-1)*bsz {
		return violate("data-portion", "portion of %d blocks at %d, block size %d: %+v, %d, %d bytes at %d, padding block at %d", l16, a, bsz, d, d.End(), size, off, d.ShiftToPaddingBlock(bs))
	}
	j := portion.NewJournalPortion(a, l16)
	if j.Start.AsU64() != a || j.Len != l16 || j.SizeOnDisk(bs) != uint32(l16) {
		return violate("journal-portion", "portion of %d bytes at %d: %+v, %d", l16, a, j, j.SizeOnDisk(bs))
	}
	if c.A > max && !refused(func() { portion.NewDataPortion(c.A, l16) }) {
		return violate("data-portion", "a portion at %d is accepted", c.A)
	}
	if c.A > max && !refused(func() { portion.NewJournalPortion(c.A, l16) }) {
		return violate("journal-portion", "a portion at %d is accepted", c.A)
	}
	const max24 = 1<<24 - 1
	for _, l := range []uint32{c.L1, c.L2} {
		if l > max24 && !refused(func() { portion.NewFreePortion(address.AddressFromU64(a), l) }) {
			return violate("free-portion", "a free portion of %d blocks is accepted", l)
		}
	}
	l1, l2 := c.L1&max24, c.L2&max24
	if a+uint64(l1) > max || b+uint64(l2) > max {
		a, b = a>>25, b>>25
	}
	p, q := portion.NewFreePortion(address.AddressFromU64(a), l1), portion.NewFreePortion(address.AddressFromU64(b), l2)
	if p.Start().AsU64() != a || p.Len() != l1 || p.End().AsU64() != a+uint64(l1) {
		return violate("free-portion", "free portion of %d blocks at %d: %d blocks, [%d,%d)", l1, a, p.Len(), p.Start(), p.End())
	}
	if x, ok := p.CheckedExtend(l2); ok != (l1+l2 <= max24) || ok && a+uint64(l1)+uint64(l2) <= max && (x.Start().AsU64() != a || x.Len() != l1+l2) {
		return violate("free-portion-extend", "%d blocks extended by %d: %v, %d", l1, l2, ok, x.Len())
	}
	if uint32(l16) <= l1 {
		rest, got := p.SlicePart(l16)
		if got.Start.AsU64() != a || got.Len != l16 || rest.Start().AsU64() != a+uint64(l16) || rest.Len() != l1-uint32(l16) {
			return violate("free-portion-slice", "%d blocks of %d at %d: %+v and [%d,%d)", l16, l1, a, got, rest.Start(), rest.End())
		}
	} else if !refused(func() { p.SlicePart(l16) }) {
		return violate("free-portion-slice", "%d blocks of %d were sliced", l16, l1)
	}
	if f := portion.FromDataPortion(portion.NewDataPortion(a, l16)); f.Start().AsU64() != a || f.Len() != uint32(l16) {
		return violate("free-portion", "from data portion (%d,%d): (%d,%d)", a, l16, f.Start(), f.Len())
	}
	wantSize := l1 < l2 || l1 == l2 && a < b
	wantEnd := a+uint64(l1) < b+uint64(l2)
	if portion.SizeBasedPortion(p).Less(portion.SizeBasedPortion(q)) != wantSize {
		return violate("free-portion-order", "by size: (%d,%d) and (%d,%d)", a, l1, b, l2)
	}
	if portion.EndBasedPortion(p).Less(portion.EndBasedPortion(q)) != wantEnd {
		return violate("free-portion-order", "by end: (%d,%d) and (%d,%d)", a, l1, b, l2)
	}
	return nil
}

func checkPacked(r *Run, c ConvCase) error {
	type ent struct {
		data  bool
		start uint64
		n     uint16
	}
	idx := lumpindex.NewIndex()
	defer idx.Free()
	m := map[uint64]ent{}
	for i := 0; i+2 < len(c.Idx); i += 3 {
		id, start, n := c.Idx[i], c.Idx[i+1]&(1<<40-1), uint16(c.Idx[i+2])
		e := ent{c.Idx[i+2]>>16&1 == 1, start, n}
		m[id] = e
		if e.data {
			idx.InsertDataPortion(lump.FromU64(0, id), portion.NewDataPortion(start, n))
		} else {
			idx.InsertJournalPortion(lump.FromU64(0, id), portion.NewJournalPortion(start, n))
		}
	}
	if idx.Count() != uint64(len(m)) {
		return violate("index-count", "Count()=%d for %d entries", idx.Count(), len(m))
	}
	var wantData []uint64
	var ids []uint64
	for id, e := range m {
		ids = append(ids, id)
		p, err := idx.Get(lump.FromU64(0, id))
		if err != nil {
			return violate("index-entry", "entry %d is missing: %v", id, err)
		}
		if d, ok := p.(portion.DataPortion); ok {
			if !e.data || d.Start.AsU64() != e.start || d.Len != e.n {
				return violate("index-entry", "entry %d %+v is read as %+v", id, e, d)
			}
		} else if j, ok := p.(portion.JournalPortion); !ok || e.data || j.Start.AsU64() != e.start || j.Len != e.n {
			return violate("index-entry", "entry %d %+v is read as %+v", id, e, p)
		}
		if e.data {
			wantData = append(wantData, e.start<<24|uint64(e.n))
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for i, id := range idx.List() {
		if i >= len(ids) || id.U64() != ids[i] {
			return violate("index-list", "List()=%v, expected %v", idx.List(), ids)
		}
	}
	sort.Slice(wantData, func(i, j int) bool { return wantData[i] < wantData[j] })
	var vec []uint64
	for _, d := range idx.DataPortions() {
		if d.Len > 0 || d.Start > 0 {
			vec = append(vec, d.Start.AsU64()<<24|uint64(d.Len))
		}
	}
	sort.Slice(vec, func(i, j int) bool { return vec[i] < vec[j] })
	ja := idx.JudyDataPortions()
	defer ja.Free()
	uniq := map[uint64]bool{}
	for _, w := range wantData {
		if w != 0 {
			uniq[w] = true
			if !ja.Test(w) {
				return violate("index-portions", "JudyDataPortions misses (%d,%d)", w>>24, w&0xffff)
			}
		}
	}
	if n := int(ja.CountAll()); n != len(uniq)+1 {
		return violate("index-portions", "JudyDataPortions has %d entries, expected %d and the start", n, len(uniq))
	}
	k := 0
	for _, w := range wantData {
		if w == 0 {
			continue
		}
		if k >= len(vec) || vec[k] != w {
			return violate("index-portions", "DataPortions misses (%d,%d)", w>>24, w&0xffff)
		}
		k++
	}
	if k != len(vec) {
		return violate("index-portions", "DataPortions has %d entries, expected %d", len(vec), k)
	}
	if len(m) > 1 {
		r.Label("packed-entries")
	}
	return nil
}

func checkBlockSize(c ConvCase) error {
	for _, v := range []uint16{uint16(c.L1), uint16(c.BS * 512), uint16(c.L2 &^ 511)} {
		b, err := block.NewBlockSize(v)
		if (err == nil) != (v >= 512 && v%512 == 0) {
			return violate("blocksize", "NewBlockSize(%d): %v", v, err)
		}
		if err != nil {
			continue
		}
		p, n := c.Pos, uint64(v)
		want := p / n * n
		up := want
		if up < p {
			up += n
		}
		if b.AsU16() != v || b.AsU32() != uint32(v) || b.FloorAlign(p) != want || b.CeilAlign(p) != up || b.IsAligned(p) != (p%n == 0) {
			return violate("blocksize-align", "block size %d, position %d: floor %d ceil %d aligned %v", v, p, b.FloorAlign(p), b.CeilAlign(p), b.IsAligned(p))
		}
		o, _ := block.NewBlockSize(uint16(c.BS * 512))
		if b.Contains(o) != (v%uint16(c.BS*512) == 0) {
			return violate("blocksize-contains", "%d contains %d: %v", v, c.BS*512, b.Contains(o))
		}
	}
	if block.Min().AsU16() != 512 {
		return violate("blocksize", "Min() is %d", block.Min())
	}
	return nil
}

func check128(c ConvCase) error {
	mod := new(big.Int).Lsh(big.NewInt(1), 128)
	toBig := func(u uint128.Uint128) *big.Int { return new(big.Int).SetBytes(u.GetBytes()) }
	u, v := uint128.FromInts(c.A, c.B), uint128.FromInts(c.B, c.A)
	bu := new(big.Int).Add(new(big.Int).Lsh(new(big.Int).SetUint64(c.A), 64), new(big.Int).SetUint64(c.B))
	bv := new(big.Int).Add(new(big.Int).Lsh(new(big.Int).SetUint64(c.B), 64), new(big.Int).SetUint64(c.A))
	n := new(big.Int).SetUint64(c.Pos)
	chk := func(what string, got uint128.Uint128, want *big.Int) error {
		want = new(big.Int).Mod(want, mod)
		if toBig(got).Cmp(want) != 0 {
			return violate("uint128", "%s of %x and %x/%d is %x, expected %x", what, bu, bv, c.Pos, toBig(got), want)
		}
		return nil
	}
	for _, x := range []struct {
		what string
		got  uint128.Uint128
		want *big.Int
	}{
		{"value", u, bu}, {"Add", u.Add(c.Pos), new(big.Int).Add(bu, n)}, {"Sub", u.Sub(c.Pos), new(big.Int).Sub(bu, n)},
		{"And", u.And(v), new(big.Int).And(bu, bv)}, {"Or", u.Or(v), new(big.Int).Or(bu, bv)}, {"Xor", u.Xor(v), new(big.Int).Xor(bu, bv)},
		{"FromBytes", uint128.FromBytes(u.GetBytes()), bu},
	} {
		if err := chk(x.what, x.got, x.want); err != nil {
			return err
		}
	}
	if sign(u.Compare(v)) != bu.Cmp(bv) || u.Equal(v) != (bu.Cmp(bv) == 0) {
		return violate("uint128", "Compare(%x,%x)=%d Equal=%v", bu, bv, u.Compare(v), u.Equal(v))
	}
	if x, err := uint128.FromString(u.String()); err != nil || !x.Equal(u) {
		return violate("uint128-string", "%x is %q, read as %v, %v", bu, u.String(), x, err)
	}
	x, err := uint128.FromString(c.S)
	raw, herr := hex.DecodeString(c.S)
	ok := herr == nil && len(c.S) <= 32
	if ok != (err == nil) || ok && toBig(x).Cmp(new(big.Int).SetBytes(raw)) != 0 {
		return violate("uint128-string", "FromString(%q) is %v, %v", c.S, x, err)
	}
	return nil
}

// abSut is an aligned buffer and what its bytes must be (-1: unspecified).
func checkAligned(r *Run, c ConvCase, bs block.BlockSize) error {
	n := int(bs.AsU16())
	pow2 := n&(n-1) == 0
	var ab *block.AlignedBytes
	var model []int
	var alias []byte
	if c.Src == 0 {
		ab = block.NewAlignedBytes(c.Size, bs)
		for i := 0; i < c.Size; i++ {
			model = append(model, 0)
		}
	} else {
		back := make([]byte, c.Size+c.Cap+2*n+c.Mis)
		base := int(uintptr(unsafe.Pointer(&back[0])) % uintptr(n))
		o := (n - base + c.Mis) % n
		src := back[o : o+c.Size : o+c.Size+c.Cap]
		x := uint32(c.Size)*2654435761 + 7
		for i := range src {
			x = x*1664525 + 1013904223
			src[i] = byte(x >> 24)
			model = append(model, int(src[i]))
		}
		alias = back
		ab = block.FromBytes(src, bs)
	}
	look := func(what string) error {
		b := ab.AsBytes()
		if int(ab.Len()) != len(model) || len(b) != len(model) {
			return violate("aligned-length", "after %s: Len()=%d, %d bytes, expected %d", what, ab.Len(), len(b), len(model))
		}
		for i, v := range model {
			if v >= 0 && int(b[i]) != v {
				return violate("aligned-content", "after %s: byte %d is %d, expected %d", what, i, b[i], v)
			}
			if v < 0 {
				model[i] = int(b[i])
			}
		}
		if cap(b) > 0 && pow2 && uintptr(unsafe.Pointer(&b[:1][0]))%uintptr(n) != 0 {
			return violate("aligned-memory", "after %s: the buffer starts %d bytes behind a boundary of %d", what, uintptr(unsafe.Pointer(&b[:1][0]))%uintptr(n), n)
		}
		if ab.BlockSize() != bs {
			return violate("aligned-blocksize", "after %s: block size %d", what, ab.BlockSize())
		}
		if ab.Capacity() < bs.CeilAlign(uint64(len(model))) {
			return violate("aligned-capacity", "after %s: capacity %d for %d bytes", what, ab.Capacity(), len(model))
		}
		return nil
	}
	resize := func(l int) {
		for len(model) < l {
			model = append(model, -1)
		}
		model = model[:l]
	}
	up := func(l int) int { return (l + n - 1) / n * n }
	if err := look("construction"); err != nil {
		return err
	}
	grown := false
	for i, op := range c.Ops {
		old := len(model)
		switch op.K {
		case "resize":
			ab.Resize(uint32(op.N))
			resize(op.N)
		case "alignresize":
			ab.AlignResize(uint32(op.N))
			resize(up(op.N))
		case "align":
			if ab.Align() != ab {
				return violate("aligned-align", "Align returned another buffer")
			}
			resize(up(len(model)))
		case "truncate":
			ab.Truncate(uint32(op.N))
			if op.N < len(model) {
				resize(op.N)
			}
		case "write":
			b := ab.AsBytes()
			for k := 0; k < op.S%700 && op.N+k < len(b); k++ {
				b[op.N+k] = byte(op.S + k)
				model[op.N+k] = int(byte(op.S + k))
			}
		}
		grown = grown || len(model) > old && old > 0
		if err := look(fmt.Sprintf("operation %d %+v", i, op)); err != nil {
			return err
		}
	}
	_ = alias
	if grown {
		r.Label("grown-buffer")
	}
	return nil
}

func checkLumpData(c ConvCase, bs block.BlockSize) error {
	for _, n := range []int{c.Size, lump.LUMP_MAX_SIZE + 1 + c.Size} {
		d := lump.NewLumpDataAligned(n, bs)
		if n > lump.LUMP_MAX_SIZE {
			if d.Inner != nil {
				return violate("lump-data", "object data of %d bytes is made", n)
			}
		} else if d.Inner == nil || len(d.AsBytes()) != n {
			return violate("lump-data", "object data of %d bytes: %v", n, d.Inner)
		}
	}
	ab := block.NewAlignedBytes(c.Size, bs)
	if d := lump.NewLumpDataWithAb(ab); d.Inner != ab || len(d.AsBytes()) != c.Size {
		return violate("lump-data", "object data of a buffer of %d bytes has %d", c.Size, len(d.AsBytes()))
	}
	return nil
}

func execConv(r *Run, c ConvCase) error {
	bs, err := block.NewBlockSize(uint16(c.BS * 512))
	if err != nil {
		return violate("blocksize", "NewBlockSize(%d): %v", c.BS*512, err)
	}
	for _, f := range []func() error{
		func() error { return checkIDs(r, c) }, func() error { return checkInts(c) }, func() error { return checkAddresses(c) },
		func() error { return checkPortions(c, bs) }, func() error { return checkPacked(r, c) }, func() error { return checkBlockSize(c) },
		func() error { return check128(c) }, func() error { return checkAligned(r, c, bs) }, func() error { return checkLumpData(c, bs) },
	} {
		if err := f(); err != nil {
			return err
		}
	}
	if len(c.Ops) > 1 && c.A != c.B {
		r.NonTrivial()
	}
	return nil
}

func genIDText(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "skind") {
	case 0:
		return rapid.StringMatching(`[0-9a-fA-F]{0,16}`).Draw(t, "s")
	case 1:
		return rapid.StringMatching(`0{0,20}[0-9a-fA-F]{1,16}`).Draw(t, "s")
	case 2:
		return rapid.StringMatching(`[0-9a-f]{15,34}`).Draw(t, "s")
	case 3:
		return rapid.StringMatching(`[-+ x_]?[0-9a-g]{1,16}[ _.]?[0-9]?`).Draw(t, "s")
	case 4:
		return rapid.SampledFrom([]string{"", "0x1", "ffffffffffffffff", "10000000000000000", "-1", "+1", "1_0", "１", "0", "7fffffffffffffff", "8000000000000000"}).Draw(t, "s")
	}
	return rapid.String().Draw(t, "s")
}

func init() {
	register(&PBT[ConvCase]{
		Id: "C17",
		RuleText: "rapid draws ids, addresses, lengths, text, raw bytes, index entries, a block size and a history of an aligned buffer (edges of every width included); " +
			"every conversion is compared with an independent one (encoding/binary, math/big, a regular expression for ids in text), every refusal with the valid range, the aligned buffer with a byte array. " +
			"Non-trivial: two different ids and at least two buffer operations.",
		Assume: []string{"bytes that an aligned buffer gains by growing are unspecified", "the start is aligned for block sizes that are powers of two (others can not be aligned to memory pages)"},
		Gen: func(t *rapid.T, tier string) ConvCase {
			var c ConvCase
			c.A, c.B = genU64(t, "a"), genU64(t, "b")
			if rapid.IntRange(0, 3).Draw(t, "near") == 3 {
				c.B = c.A + uint64(rapid.IntRange(0, 2).Draw(t, "d")) - 1
			}
			ln := func(l string) uint32 {
				switch rapid.IntRange(0, 2).Draw(t, l+"k") {
				case 0:
					return rapid.SampledFrom([]uint32{0, 1, 2, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<32 - 1, 1 << 23, 512, 511, 513, 1024}).Draw(t, l)
				case 1:
					return rapid.Uint32().Draw(t, l)
				}
				return rapid.Uint32Range(0, 2000).Draw(t, l)
			}
			c.L1, c.L2 = ln("l1"), ln("l2")
			c.S = genIDText(t)
			c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "raw")
			if rapid.Bool().Draw(t, "raw8") {
				c.Raw = rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "raw")
			}
			c.BS = rapid.SampledFrom([]int{1, 1, 1, 2, 3, 8, 64, 127}).Draw(t, "bs")
			c.Pos = genU64(t, "pos") >> 1
			c.Src = rapid.IntRange(0, 1).Draw(t, "src")
			c.Size = rapid.IntRange(0, 2200).Draw(t, "size")
			c.Mis = rapid.SampledFrom([]int{0, 0, 1, 8, 64, 511, 256}).Draw(t, "mis")
			if rapid.Bool().Draw(t, "cap?") {
				c.Cap = rapid.IntRange(0, 1100).Draw(t, "cap")
			}
			c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) AbOp {
				op := AbOp{K: rapid.SampledFrom([]string{"resize", "resize", "alignresize", "align", "truncate", "write", "write"}).Draw(t, "k")}
				if op.K != "align" {
					op.N = rapid.IntRange(0, 3000).Draw(t, "n")
				}
				if op.K == "write" {
					op.S = rapid.IntRange(1, 5000).Draw(t, "s")
				}
				return op
			}), 0, 12).Draw(t, "ops")
			for k := rapid.IntRange(0, 6).Draw(t, "nidx"); k > 0; k-- {
				c.Idx = append(c.Idx, genU64(t, "iid"), genU64(t, "istart"), uint64(rapid.IntRange(0, 1<<17-1).Draw(t, "ilen")))
			}
			return c
		},
		Exec:  execConv,
		Quick: Budget{Cases: 200000, Seconds: 40}, Thorough: Budget{Cases: 5000000, Seconds: 600},
	})
}

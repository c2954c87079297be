package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"os"
	"path/filepath"

	"pgregory.net/rapid"
)

// C09Case is a history, and damage done to the closed file afterwards (one open per damage).
type C09Case struct {
	G      Geom
	Ops    []Op
	Damage []Damage
	Cont   []Op
	Sweep  bool     `json:",omitempty"` // also flip every bit of one record
	Snap   *C09Snap `json:",omitempty"` // instead of all the others
}

// Damage is one damage. Where is resolved against the closed file: "rec" picks a live journal record, "end" the
// end-of-records marker, "dead" journal bytes that are not live, "head" the sector with the head pointer,
// "hdr" the storage header, "data" the data region, "cut" shortens the file.
type Damage struct {
	Where string
	Pick  int    // which record / byte
	Off   int    // byte inside
	How   string // "bit", "byte", "fill", "swap", "sector", "field"
	Val   int
	Len   int
	Recs  []Craft `json:",omitempty"`
}

// Craft is a well-formed record written into the journal by a "craft" damage.
type Craft struct {
	Tag    byte
	ID, To uint64
	Block  uint64
	Blocks int
	Len    int
}

// bytes is the record in the documented format, with a correct checksum.
func (c Craft) bytes() []byte {
	b := []byte{c.Tag}
	switch c.Tag {
	case 3:
		b = binary.BigEndian.AppendUint64(b, c.ID)
		b = binary.BigEndian.AppendUint16(b, uint16(c.Blocks))
		b = append(b, byte(c.Block>>32))
		b = binary.BigEndian.AppendUint32(b, uint32(c.Block))
	case 4:
		b = binary.BigEndian.AppendUint64(b, c.ID)
		b = binary.BigEndian.AppendUint16(b, uint16(c.Len))
		b = append(b, make([]byte, c.Len)...)
	case 5:
		b = binary.BigEndian.AppendUint64(b, c.ID)
	case 6:
		b = binary.BigEndian.AppendUint64(b, c.ID)
		b = binary.BigEndian.AppendUint64(b, c.To)
	}
	return append(binary.BigEndian.AppendUint32(nil, adler32.Checksum(b)), b...)
}

// jrec is a record found by the independent journal reader.
type jrec struct {
	start, end int // in the ring
	tag        byte
	id, to     uint64
	block      uint64
	blocks     int
	data       []byte
}

// readJournal is an independent reader of the documented journal format: the live records from head on. It stops
// with an error where the format is broken.
func readJournal(raw []byte, g Geom) (recs []jrec, endAt int, err error) {
	base := 2 * blk
	ringLen := (g.J - 1) * blk
	at := func(off, n int) []byte { // the file is sparse: what is behind its end reads as zeros
		b := make([]byte, n)
		if base+off < len(raw) {
			copy(b, raw[base+off:])
		}
		return b
	}
	hb := make([]byte, 8)
	if len(raw) > blk {
		copy(hb, raw[blk:])
	}
	head := binary.BigEndian.Uint64(hb)
	if head > uint64(ringLen) {
		return nil, 0, fmt.Errorf("head %d is outside of the ring", head)
	}
	pos := int(head)
	wrapped := false
	for n := 0; ; n++ {
		if n > ringLen {
			return nil, 0, fmt.Errorf("no end")
		}
		if pos+5 > ringLen {
			return nil, 0, fmt.Errorf("record header at %d leaves the ring", pos)
		}
		h := at(pos, 5)
		sum, tag := binary.BigEndian.Uint32(h), h[4]
		size := 0
		switch tag {
		case 0, 1:
		case 3:
			size = 15
		case 4:
			if pos+15 > ringLen {
				return nil, 0, fmt.Errorf("record at %d leaves the ring", pos)
			}
			size = 10 + int(binary.BigEndian.Uint16(at(pos+13, 2)))
		case 5:
			size = 8
		case 6:
			size = 16
		default:
			return nil, 0, fmt.Errorf("tag %d at %d", tag, pos)
		}
		if pos+5+size > ringLen {
			return nil, 0, fmt.Errorf("record at %d leaves the ring", pos)
		}
		body := at(pos+5, size)
		if s := adler32.Checksum(append([]byte{tag}, body...)); s != sum {
			return nil, 0, fmt.Errorf("checksum at %d", pos)
		}
		r := jrec{start: pos, end: pos + 5 + size, tag: tag}
		switch tag {
		case 0:
			return recs, pos, nil
		case 1:
			if wrapped {
				return nil, 0, fmt.Errorf("two laps")
			}
			wrapped = true
			recs = append(recs, r)
			pos = 0
			continue
		case 3:
			r.id = binary.BigEndian.Uint64(body)
			r.blocks = int(binary.BigEndian.Uint16(body[8:]))
			r.block = uint64(body[10])<<32 | uint64(binary.BigEndian.Uint32(body[11:]))
		case 4:
			r.id = binary.BigEndian.Uint64(body)
			r.data = body[10:]
		case 5:
			r.id = binary.BigEndian.Uint64(body)
		case 6:
			r.id = binary.BigEndian.Uint64(body)
			r.to = binary.BigEndian.Uint64(body[8:])
		}
		recs = append(recs, r)
		pos = r.end
	}
}

func sameRecords(a, b []jrec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.start != y.start || x.tag != y.tag || x.id != y.id || x.to != y.to || x.block != y.block || x.blocks != y.blocks || !bytes.Equal(x.data, y.data) {
			return false
		}
	}
	return true
}

// headerValid is an independent check of the documented header format.
func headerValid(raw []byte) bool {
	if len(raw) < 44 || string(raw[:4]) != "lusf" || binary.BigEndian.Uint16(raw[4:]) != 38 ||
		binary.BigEndian.Uint16(raw[6:]) != 2 || binary.BigEndian.Uint16(raw[8:]) != 1 {
		return false
	}
	bs := uint64(binary.BigEndian.Uint16(raw[10:]))
	if bs < 512 || bs%512 != 0 {
		return false
	}
	j, d := binary.BigEndian.Uint64(raw[28:]), binary.BigEndian.Uint64(raw[36:])
	return j%bs == 0 && d%bs == 0 && j <= 1<<40-1 && d <= (1<<40-1)*512
}

// apply does the damage to a copy of the file.
func (d Damage) apply(raw []byte, g Geom, recs []jrec, endAt int) []byte {
	out := append([]byte(nil), raw...)
	base := 2 * blk
	lo, hi := 0, 0 // the bytes to choose from
	switch d.Where {
	case "rec":
		if len(recs) == 0 {
			lo, hi = base+endAt, base+endAt+5
			break
		}
		r := recs[d.Pick%len(recs)]
		lo, hi = base+r.start, base+r.end
	case "end":
		lo, hi = base+endAt, base+endAt+5
	case "dead":
		lo = base + (endAt+5+d.Pick)%((g.J-1)*blk)
		hi = base + (g.J-1)*blk
	case "head":
		lo, hi = blk, blk+8
		if d.Pick%3 == 0 {
			lo, hi = blk+8, 2*blk
		}
	case "hdr":
		lo, hi = 0, 44
		if d.How == "sector" || d.Pick%4 == 0 {
			hi = blk
		}
	case "data":
		lo, hi = (1+g.J)*blk, len(out)
		s := (d.Pick % g.D) * blk
		if len(recs) > 0 {
			if x := recs[d.Pick%len(recs)]; x.tag == 3 && x.blocks > 0 {
				s = (int(x.block) + x.blocks - 1) * blk // the last block of an object
			}
		}
		if d.Off%3 > 0 && (1+g.J)*blk+s+blk <= len(out) { // the padding length
			lo, hi = (1+g.J)*blk+s+blk-2, (1+g.J)*blk+s+blk
		}
	case "craft":
		at := int(binary.BigEndian.Uint64(raw[blk:])) // the head
		switch {
		case d.Pick%3 == 0:
			at = endAt
		case d.Pick%3 == 1 && len(recs) > 0:
			at = recs[d.Off%len(recs)].start
		}
		list := d.Recs
		if d.Val%2 == 0 {
			list = append(append([]Craft{}, list...), Craft{Tag: 0})
		}
		for _, c := range list {
			b := c.bytes()
			if at+len(b) > (g.J-1)*blk {
				break
			}
			if n := base + at + len(b); n > len(out) {
				out = append(out, make([]byte, n-len(out))...)
			}
			copy(out[base+at:], b)
			at += len(b)
			if c.Tag == 1 {
				at = 0
			}
		}
		return out
	case "cut":
		n := 0
		switch d.Pick % 3 {
		case 0:
			n = d.Off % (len(out) + 1)
		case 1:
			n = (d.Off % (g.J + 2)) * blk
		default:
			n = base + endAt - 20 + d.Off%40
		}
		if n < 0 {
			n = 0
		}
		if n > len(out) {
			n = len(out)
		}
		return out[:n]
	}
	if hi > len(out) {
		hi = len(out)
	}
	if lo >= hi {
		return out
	}
	p := lo + d.Off%(hi-lo)
	switch d.How {
	case "bit":
		out[p] ^= 1 << (uint(d.Val) % 8)
	case "byte":
		out[p] = byte(d.Val)
	case "fill":
		for i := p; i < p+d.Len && i < hi; i++ {
			out[i] = byte(d.Val)
		}
	case "swap": // two neighbouring bytes change places
		if p+1 < hi {
			out[p], out[p+1] = out[p+1], out[p]
		}
	case "sector":
		s := p / blk * blk
		for i := s; i < s+blk && i < len(out); i++ {
			switch d.Val % 3 {
			case 0:
				out[i] = 0
			case 1:
				out[i] = 0xff
			default: // another sector of the file
				if src := (d.Len%(len(out)/blk))*blk + i - s; src < len(raw) {
					out[i] = raw[src]
				}
			}
		}
	case "field": // a whole header field gets another value
		f := [][2]int{{0, 4}, {4, 2}, {6, 2}, {8, 2}, {10, 2}, {12, 16}, {28, 8}, {36, 8}}[d.Pick%8]
		vals := []uint64{0, 1, 2, 3, 511, 512, 513, 1024, 37, 39, 1<<40 - 1, 1 << 40, 1 << 49, 1 << 63, 1<<64 - 1, uint64(d.Len) * 512}
		v := vals[d.Val%len(vals)]
		for i := 0; i < f[1]; i++ {
			out[f[0]+f[1]-1-i] = byte(v >> (8 * uint(i%8)))
		}
	}
	return out
}

var c09Kinds = expand([]weighted{{"put", 8}, {"embed", 10}, {"del", 4}, {"delr", 1}, {"pwo", 2}, {"sync", 2}, {"side", 3}, {"gc", 1}, {"reopen", 1}})

func genDamage(t *rapid.T) Damage {
	d := Damage{Where: rapid.SampledFrom([]string{"rec", "rec", "rec", "rec", "end", "dead", "head", "hdr", "hdr", "data", "cut", "cut", "craft", "craft"}).Draw(t, "where")}
	d.Pick = rapid.IntRange(0, 200).Draw(t, "pick")
	d.Off = rapid.IntRange(0, 8000).Draw(t, "off")
	hows := []string{"bit", "bit", "byte", "fill", "swap", "sector"}
	if d.Where == "hdr" {
		hows = append(hows, "field", "field", "field")
	}
	d.How = rapid.SampledFrom(hows).Draw(t, "how")
	if d.Where == "rec" && d.How == "bit" {
		d.Off = rapid.IntRange(0, 30).Draw(t, "recoff")
	}
	d.Val = rapid.OneOf(rapid.IntRange(0, 15), rapid.IntRange(0, 255)).Draw(t, "val")
	d.Len = rapid.IntRange(1, 40).Draw(t, "len")
	if d.Where == "craft" {
		d.Recs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Craft {
			return Craft{Tag: rapid.SampledFrom([]byte{1, 1, 3, 3, 4, 5, 6, 0, 2, 7}).Draw(t, "tag"), ID: rapid.Uint64Range(0, 6).Draw(t, "id"), To: rapid.Uint64Range(0, 9).Draw(t, "to"),
				Block: rapid.SampledFrom([]uint64{0, 1, 5, 1 << 20, 1<<40 - 1}).Draw(t, "block"), Blocks: rapid.SampledFrom([]int{0, 1, 2, 9, 65535}).Draw(t, "blocks"), Len: rapid.SampledFrom([]int{0, 1, 40, 600}).Draw(t, "dlen")}
		}), 1, 4).Draw(t, "recs")
	}
	return d
}

// execDamage damages the file, opens it and judges the outcome. It returns what happened.
func execDamage(r *Run, w *World, path string, raw []byte, recs []jrec, endAt int, d Damage, cont []Op, again bool) (string, error) {
	bad := d.apply(raw, w.G, recs, endAt)
	if bytes.Equal(bad, raw) {
		return "no-change", nil
	}
	fail := func(class, format string, a ...any) (string, error) {
		return "", violate(class, "damage %+v: %s", d, fmt.Sprintf(format, a...))
	}
	if err := os.WriteFile(path, bad, 0644); err != nil {
		harnessFail(err)
	}
	defer os.Remove(path)
	headerOK := headerValid(bad)
	sameHeader := headerOK && bytes.Equal(bad[:12], raw[:12]) && bytes.Equal(bad[28:44], raw[28:44])
	badRecs, _, perr := readJournal(bad, w.G)
	st, err, viol := tryOpen(path, w.G.capacity()+64<<10)
	if viol != nil {
		v := viol.(*Violation)
		return fail(v.Class, "%s", v.Msg)
	}
	defer func() {
		if st != nil {
			st.Close()
		}
	}()
	if err != nil {
		// the refusal must be about the damage, and the file must be available again
		if sameHeader && perr == nil && d.Where != "head" {
			if sameRecords(recs, badRecs) {
				return fail("refused-undamaged", "nothing that is live was damaged, but opening says: %v", err)
			}
		}
		if !again {
			return "refused", nil
		}
		if e := os.WriteFile(path, raw, 0644); e != nil {
			harnessFail(e)
		}
		st2, e, viol := tryOpen(path, w.G.capacity())
		if viol != nil || e != nil {
			return fail("not-released", "opening was refused (%v); the repaired file can not be opened: %v %v", err, e, viol)
		}
		w2 := &World{R: r, Path: path, G: w.G, St: st2, Model: w.Model}
		e = w2.checkAll()
		st2.Close()
		if e != nil {
			return fail("not-released", "opening was refused (%v) and the repaired file has other contents: %v", err, e)
		}
		return "refused", nil
	}
	switch {
	case !headerOK:
		return fail("header-accepted", "the header is not valid (% x) but the file opened", bad[:min(44, len(bad))])
	case !sameHeader:
		return "other-header", nil // a valid header of another store: nothing can tell
	case d.Where == "head" && (perr != nil || !sameRecords(recs, badRecs)):
		if perr != nil {
			return fail("broken-journal-accepted", "the journal is broken (%v) but the store opened with %d objects", perr, len(st.List()))
		}
		return "other-head", nil
	case perr != nil:
		return fail("broken-journal-accepted", "the journal is broken (%v) but the store opened with %d objects", perr, len(st.List()))
	case !sameRecords(recs, badRecs):
		// the damage made another well-formed journal: opening must give what it says
		want := replay(badRecs)
		got := st.List()
		for _, id := range got {
			if _, ok := want[id.U64()]; !ok {
				return fail("other-ids", "id %d is present, but the journal does not describe it", id.U64())
			}
		}
		if len(got) != len(want) {
			return fail("other-ids", "%d objects, but the journal describes %d", len(got), len(want))
		}
		return "undetectable", nil
	}
	// the records are the same: so must be the objects
	if d.Where == "data" || d.Where == "cut" {
		// data blocks have no checksum: nothing may panic, undamaged objects are exact, and what was cut off
		// is reported or still exact
		dataBase := (1 + w.G.J) * blk
		ids := w.sortedIDs()
		if got := st.List(); len(got) != len(ids) {
			return fail("damaged-ids", "%d objects, want %d", len(got), len(ids))
		}
		for _, id := range ids {
			o := w.Model[id]
			got, gerr := st.Get(lid(id))
			size, serr := st.GetSize(lid(id))
			part, oerr := st.GetWithOffset(lid(id), 0, uint32(len(o.Data)))
			touched := false
			if !o.Embed {
				p, err := st.GetRecord(lid(id))
				if err != nil {
					return fail("damaged-ids", "GetRecord of id %d: %v", id, err)
				}
				s, e := dataBase+int(p.Start.AsU64())*blk, dataBase+int(p.End())*blk
				touched = e > len(bad) && len(bad) < len(raw)
				if e <= len(bad) { // whatever the length says, an object is never more than what its blocks hold
					if gerr == nil && (len(got) > e-s-2 || !bytes.Equal(got, bad[s:s+len(got)])) {
						return fail("reads-more-than-stored", "id %d has %d blocks and reads as %d bytes, which are not those of its blocks", id, (e-s)/blk, len(got))
					}
					if serr == nil && int(size) > e-s-2 {
						return fail("reads-more-than-stored", "id %d has %d blocks and the size %d", id, (e-s)/blk, size)
					}
					if oerr == nil && (len(part) > len(o.Data) || !bytes.Equal(part, bad[s:s+len(part)])) {
						return fail("reads-more-than-stored", "the first %d bytes of id %d read as %d bytes, which are not those of its blocks", len(o.Data), id, len(part))
					}
				}
				if d.Where == "data" {
					if e > len(raw) {
						e = len(raw)
					}
					touched = s < e && !bytes.Equal(bad[s:e], raw[s:e])
				}
			}
			switch {
			case !touched && (gerr != nil || !bytes.Equal(got, o.Data)):
				return fail("damage-spread", "id %d was not damaged, but reads as %d bytes, %v", id, len(got), gerr)
			case touched && d.Where == "cut" && gerr == nil && !bytes.Equal(got, o.Data):
				return fail("cut-data-accepted", "the file ends before the data of id %d does, but it reads as %d other bytes", id, len(got))
			case touched && gerr != nil:
				r.Label("damaged-object-reported")
			}
		}
		return "data-checked", nil
	}
	w2 := &World{R: r, Path: path, G: w.G, St: st, Model: map[uint64]*Obj{}, Ring: w.Ring, Autogc: true}
	for id, o := range w.Model {
		w2.Model[id] = o
	}
	st = nil
	defer w2.Close()
	use := func() error {
		if err := w2.checkAll(); err != nil {
			return err
		}
		if err := w2.checkSpace(); err != nil {
			return err
		}
		for i, op := range cont {
			if err := w2.Step(op); err != nil {
				return at(err, i)
			}
		}
		if err := w2.Reopen(); err != nil {
			return err
		}
		return w2.checkAll()
	}
	if err := use(); err != nil {
		if v, ok := err.(*Violation); ok {
			return fail("damaged-"+v.Class, "%s", v.Msg)
		}
		return "", err
	}
	return "harmless", nil
}

func init() {
	register(&PBT[C09Case]{
		Id: "C09",
		RuleText: "rapid draws a small store, a history of up to 60 operations and 12 damages (a bit, a byte, a run, swapped bytes, a whole sector, a header field, a shortened file; in live journal records, the end marker, dead journal space, " +
			"the head pointer, the header, the data region; and well-formed but senseless records, among them jumps to the front, put into the journal). Each is done to a copy of the closed file, which is then opened with bounded reads. An independent reader of the documented format says whether the header and the live records are " +
			"well formed and unchanged: a broken file must be refused with an error (and the repaired file must open again in the same process), an unchanged one must open with exactly the model's contents and keep working, and nothing may panic. " +
			"In one case in 25 every bit of one live record is also flipped, one at a time. One case in ten damages the file of a snapshot that has saved regions instead (used table entries, unused table space, its header, a shortened file, a half-written region at its end): opening must not panic, a damaged entry must be refused or " +
			"leave the snapshot exact, unused parts must not matter, and without the refused snapshot the store opens with its contents. Non-trivial: a damage changed live journal bytes or the header and was refused.",
		Assume: []string{"damage that happens to make another well-formed file (colliding 32-bit checksums of several changed bytes, another valid header, another head pointer that leads to well-formed records) can not be noticed: the independent reader recognises it and only panics and endless opens count"},
		Gen: func(t *rapid.T, tier string) C09Case {
			if rare(t, 10) {
				return C09Case{G: Geom{J: 2, D: 1}, Snap: genC09Snap(t)}
			}
			c := C09Case{G: Geom{J: uniform(t, 2, 9, "J"), D: rapid.IntRange(1, 16).Draw(t, "D")}}
			ids := genIDs(t)
			mb := min(4, c.G.D)
			gen := rapid.Custom(func(t *rapid.T) Op { return genOp(t, c09Kinds, ids, c.G, mb) })
			c.Ops = genSpin(t, ids, c.G, rapid.SliceOfN(gen, uniform(t, 1, 30, "min"), 60).Draw(t, "ops"))
			c.Damage = rapid.SliceOfN(rapid.Custom(genDamage), 1, 12).Draw(t, "damage")
			c.Cont = rapid.SliceOfN(gen, 0, 8).Draw(t, "cont")
			c.Sweep = rare(t, 25)
			return c
		},
		Exec: func(r *Run, c C09Case) error {
			if c.Snap != nil {
				return execC09Snap(r, *c.Snap)
			}
			w, err := newWorld(r, c.G, "s.lusf")
			if err != nil {
				return err
			}
			for i, op := range c.Ops {
				if err := w.Step(op); err != nil {
					return at(err, i)
				}
			}
			w.Close()
			raw, err := os.ReadFile(w.Path)
			if err != nil {
				harnessFail(err)
			}
			recs, endAt, perr := readJournal(raw, c.G)
			if perr != nil || !headerValid(raw) {
				return violate("format", "the closed file is not in the documented format: %v", perr)
			}
			if err := checkReplay(recs, w); err != nil {
				return err
			}
			path := filepath.Join(r.Dir, "d.lusf")
			for i, d := range c.Damage {
				res, err := execDamage(r, w, path, raw, recs, endAt, d, c.Cont, true)
				if err != nil {
					return at(err, i)
				}
				r.Label("damage-" + d.Where)
				r.Label("outcome-" + res)
				r.Count("damages", 1)
				if res == "refused" {
					r.Count("refused", 1)
					if d.Where == "rec" || d.Where == "end" || d.Where == "hdr" {
						r.NonTrivial()
					}
				}
			}
			// every bit of one record, in some cases
			if len(recs) > 0 && c.Sweep {
				r.Label("every-bit")
				k := c.Damage[0].Pick % len(recs)
				n := recs[k].end - recs[k].start
				for b := 0; b < n*8 && b < 40*8; b++ {
					d := Damage{Where: "rec", Pick: k, Off: b / 8, How: "bit", Val: b % 8}
					if _, err := execDamage(r, w, path, raw, recs, endAt, d, nil, b%16 == 0); err != nil {
						return err
					}
					r.Count("damages", 1)
				}
			}
			return nil
		},
		Quick:    Budget{Cases: 4500, Seconds: 40},
		Thorough: Budget{Cases: 40000, Seconds: 600},
	})
}

// checkReplay compares the objects the live records of the closed file describe with the model.
func checkReplay(recs []jrec, w *World) error {
	st := replay(recs)
	if len(st) != len(w.Model) {
		return violate("format", "the closed journal describes %d objects, want %d", len(st), len(w.Model))
	}
	for id, o := range w.Model {
		x, ok := st[id]
		if !ok || (x.tag == 4) != o.Embed || o.Embed && !bytes.Equal(x.data, o.Data) || !o.Embed && x.blocks != o.Blocks {
			return violate("format", "the closed journal describes id %d as %+v", id, x)
		}
	}
	return nil
}

// replay returns the records of the objects that exist after the given records.
func replay(recs []jrec) map[uint64]jrec {
	st := map[uint64]jrec{}
	for _, x := range recs {
		switch x.tag {
		case 3, 4:
			st[x.id] = x
		case 5:
			delete(st, x.id)
		case 6:
			for id := range st {
				if id >= x.id && id < x.to {
					delete(st, id)
				}
			}
		}
	}
	return st
}

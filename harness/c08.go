package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"io"
	"reflect"
	"testing/iotest"

	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage/journal"
	"pgregory.net/rapid"
)

// RecSpec describes one journal record.
type RecSpec struct {
	K    string // end, front, put, embed, del, delr
	ID   uint64 `json:",omitempty"`
	ID2  uint64 `json:",omitempty"`
	Off  uint64 `json:",omitempty"`
	Len  uint16 `json:",omitempty"`
	Size int    `json:",omitempty"`
	Seed int    `json:",omitempty"`
	Fill int    `json:",omitempty"` // 0: pseudo random payload, else all bytes Fill-1
}

// RecCase is a list of records written one after another, plus raw input for the decoder.
type RecCase struct {
	Recs []RecSpec
	Read int     // 0: whole reads, 1: one byte per read, 2: half reads, 3: data together with EOF
	Tail int     // bytes behind a changed record
	Muts [][]int // each: record number, then pairs (position, xor)
	Raw  []byte  // arbitrary input
	Fix  bool    // give Raw a matching checksum (over the record its tag says)
}

func (s RecSpec) payload() []byte {
	b := make([]byte, s.Size)
	if s.Fill > 0 {
		for i := range b {
			b[i] = byte(s.Fill - 1)
		}
		return b
	}
	x := uint64(s.Seed)*0x9E3779B97F4A7C15 + 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
	return b
}

func (s RecSpec) record() journal.JournalRecord {
	switch s.K {
	case "end":
		return journal.EndOfRecords{}
	case "front":
		return journal.GoToFront{}
	case "put":
		return journal.PutRecord{LumpID: lump.FromU64(0, s.ID), DataPortion: portion.NewDataPortion(s.Off, s.Len)}
	case "embed":
		return journal.EmbedRecord{LumpID: lump.FromU64(0, s.ID), Data: s.payload()}
	case "del":
		return journal.DeleteRecord{LumpID: lump.FromU64(0, s.ID)}
	}
	return journal.DeleteRange{Start: lump.FromU64(0, s.ID), End: lump.FromU64(0, s.ID2)}
}

func sameRecord(a, b journal.JournalRecord) bool {
	ea, ok := a.(journal.EmbedRecord)
	eb, ok2 := b.(journal.EmbedRecord)
	if ok && ok2 {
		return ea.LumpID == eb.LumpID && bytes.Equal(ea.Data, eb.Data)
	}
	return reflect.TypeOf(a) == reflect.TypeOf(b) && reflect.DeepEqual(a, b)
}

func showRecord(r journal.JournalRecord) string {
	s := fmt.Sprintf("%T%+v", r, r)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func decodeOne(b []byte) (journal.JournalRecord, int, error) {
	rd := bytes.NewReader(b)
	rec, err := journal.ReadRecordFrom(rd)
	return rec, len(b) - rd.Len(), err
}

// checksummed says whether the stored checksum fits the n bytes of b that were consumed: then the
// checksum cannot tell (a change that leaves the sum the same).
func checksummed(b []byte, n int) bool {
	return n >= 5 && binary.BigEndian.Uint32(b) == adler32.Checksum(b[4:n])
}

// checkMutant decodes changed bytes; the outcome must be an error or, if the checksum happens to fit
// the changed bytes, what they say.
func checkMutant(orig journal.JournalRecord, b []byte, what string) error {
	rec, n, err := decodeOne(b)
	if err != nil {
		return nil
	}
	if sameRecord(rec, orig) {
		return violate("record-change-unnoticed", "%s with %s decodes into the unchanged record", showRecord(orig), what)
	}
	if checksummed(b, n) {
		return nil
	}
	return violate("record-corruption-accepted", "%s with %s decodes into %s", showRecord(orig), what, showRecord(rec))
}

func execRecords(r *Run, c RecCase) error {
	var all []byte
	var recs []journal.JournalRecord
	var encs [][]byte
	for i, s := range c.Recs {
		rec := s.record()
		var buf bytes.Buffer
		if err := rec.WriteTo(&buf); err != nil {
			return violate("record-encode", "record %d %s: %v", i, showRecord(rec), err)
		}
		if buf.Len() != int(rec.ExternalSize()) {
			return violate("record-size", "record %d %s takes %d bytes, declared %d", i, showRecord(rec), buf.Len(), rec.ExternalSize())
		}
		recs = append(recs, rec)
		encs = append(encs, buf.Bytes())
		all = append(all, buf.Bytes()...)
		r.Label(s.K)
	}
	var rd io.Reader = bytes.NewReader(all)
	switch c.Read {
	case 1:
		rd = iotest.OneByteReader(rd)
	case 2:
		rd = iotest.HalfReader(rd)
	case 3:
		rd = iotest.DataErrReader(rd)
	}
	for i, want := range recs {
		got, err := journal.ReadRecordFrom(rd)
		if err != nil {
			return violate("record-decode", "record %d %s: %v", i, showRecord(want), err)
		}
		if !sameRecord(got, want) {
			return violate("record-roundtrip", "record %d %s was read back as %s", i, showRecord(want), showRecord(got))
		}
		if got.Tag() != want.Tag() || got.CheckSum() != want.CheckSum() || got.ExternalSize() != want.ExternalSize() {
			return violate("record-roundtrip", "record %d %s: tag, checksum or size changed", i, showRecord(want))
		}
		start := uint64(i * 512)
		e := journal.JournalEntry{Start: addrOf(start), Record: got}
		if e.End() != start+uint64(len(encs[i])) {
			return violate("record-entry-end", "entry of record %d %s ends at %d, started at %d, %d bytes", i, showRecord(want), e.End(), start, len(encs[i]))
		}
	}
	if rec, err := journal.ReadRecordFrom(rd); err == nil {
		return violate("record-trailing", "after the last record another one was read: %s", showRecord(rec))
	}
	var muts int64
	tail := bytes.Repeat([]byte{byte(len(c.Raw))}, c.Tail)
	for i, enc := range encs {
		// truncations: all of them, or a spread and both ends for big records
		for cut := 0; cut < len(enc); cut++ {
			if len(enc) > 1500 && cut > 400 && cut < len(enc)-300 && cut%311 != 0 {
				continue
			}
			muts++
			if rec, _, err := decodeOne(enc[:cut]); err == nil {
				return violate("record-truncated-accepted", "the first %d of %d bytes of %s decode into %s", cut, len(enc), showRecord(recs[i]), showRecord(rec))
			}
		}
		// single bit changes, followed by other bytes so that a longer record can be read
		m := append(append([]byte(nil), enc...), tail...)
		for p := 0; p < len(enc); p++ {
			if len(enc) > 300 && p > 40 && p < len(enc)-4 && p%(len(enc)/10) != 0 {
				continue
			}
			for bit := 0; bit < 8; bit++ {
				if len(enc) > 3000 && p > 15 && bit != p%8 {
					continue // a refusal prints the whole record: keep it affordable
				}
				m[p] ^= 1 << bit
				muts++
				if err := checkMutant(recs[i], m, fmt.Sprintf("bit %d of byte %d changed", bit, p)); err != nil {
					return err
				}
				m[p] ^= 1 << bit
			}
		}
	}
	for _, mu := range c.Muts {
		if len(encs) == 0 || len(mu) < 3 {
			continue
		}
		i := mu[0] % len(encs)
		m := append(append([]byte(nil), encs[i]...), tail...)
		for k := 1; k+1 < len(mu); k += 2 {
			m[mu[k]%len(encs[i])] ^= byte(mu[k+1])
		}
		if bytes.Equal(m[:len(encs[i])], encs[i]) {
			continue
		}
		muts++
		if err := checkMutant(recs[i], m, fmt.Sprintf("changes %v", mu[1:])); err != nil {
			return err
		}
	}
	// arbitrary bytes: never a panic, and what decodes is exactly what its encoding says
	raw := append([]byte(nil), c.Raw...)
	if c.Fix && len(raw) >= 5 {
		raw[4] = []byte{0, 1, 3, 4, 5, 6}[int(raw[4])%6]
		n := 5
		switch raw[4] {
		case 3:
			n = 20
		case 4:
			n = 15
			if len(raw) >= 15 {
				raw[13] = 0
				n += int(raw[14])
			}
		case 5:
			n = 13
		case 6:
			n = 21
		}
		if n <= len(raw) {
			binary.BigEndian.PutUint32(raw, adler32.Checksum(raw[4:n]))
			r.Label("raw-with-checksum")
		}
	}
	if rec, n, err := decodeOne(raw); err == nil {
		r.Label("raw-decoded")
		var buf bytes.Buffer
		rec.WriteTo(&buf)
		if !bytes.Equal(buf.Bytes(), raw[:n]) {
			return violate("record-raw", "bytes %x decode into %s, whose encoding is %x", raw[:n], showRecord(rec), buf.Bytes())
		}
		if !checksummed(raw, n) {
			return violate("record-raw-checksum", "bytes %x decode into %s although the checksum does not fit", raw[:n], showRecord(rec))
		}
	}
	r.Count("changed_or_cut_records", muts)
	if len(recs) >= 2 {
		r.NonTrivial()
	}
	return nil
}

var edge64 = []uint64{0, 1, 2, 255, 256, 65535, 65536, 1 << 24, 1<<24 - 1, 1 << 32, 1<<32 - 1, 1<<40 - 1, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}

func genU64(t *rapid.T, label string) uint64 {
	if rapid.Bool().Draw(t, label+"-edge") {
		return rapid.SampledFrom(edge64).Draw(t, label)
	}
	return rapid.Uint64().Draw(t, label)
}

func genRecSpec(t *rapid.T) RecSpec {
	s := RecSpec{K: rapid.SampledFrom([]string{"end", "front", "put", "put", "embed", "embed", "del", "delr"}).Draw(t, "k")}
	switch s.K {
	case "put":
		s.ID, s.Off, s.Len = genU64(t, "id"), genU64(t, "off")&(1<<40-1), rapid.Uint16().Draw(t, "len")
	case "embed":
		s.ID, s.Seed = genU64(t, "id"), rapid.IntRange(0, 1000).Draw(t, "seed")
		switch rapid.IntRange(0, 40).Draw(t, "sizekind") {
		case 40:
			s.Size = 65535 - rapid.IntRange(0, 3).Draw(t, "size")
		case 1, 2, 3, 4, 5, 6:
			s.Size = rapid.IntRange(250, 1100).Draw(t, "size")
		default:
			s.Size = rapid.IntRange(0, 40).Draw(t, "size")
		}
		if rapid.IntRange(0, 2).Draw(t, "fill?") == 2 {
			s.Fill = rapid.SampledFrom([]int{1, 2, 128, 256}).Draw(t, "fill")
		}
	case "del":
		s.ID = genU64(t, "id")
	case "delr":
		s.ID, s.ID2 = genU64(t, "id"), genU64(t, "id2")
	}
	return s
}

func init() {
	register(&PBT[RecCase]{
		Id: "C08",
		RuleText: "rapid draws up to 6 records of all kinds (all ids, 40-bit offsets, payloads 0..65535), a way of reading (whole, byte by byte, halves, data with EOF), multi-byte changes and raw bytes; " +
			"each record is encoded, measured and decoded from the concatenation, then decoded with every single bit changed and cut at every length (spread positions in payloads over 300 bytes). " +
			"Non-trivial: at least two records in sequence.",
		Assume: []string{"a change of several bytes that leaves the 32-bit checksum the same cannot be noticed; such a case is not counted as a violation"},
		Gen: func(t *rapid.T, tier string) RecCase {
			var c RecCase
			c.Recs = rapid.SliceOfN(rapid.Custom(genRecSpec), 1, 6).Draw(t, "recs")
			c.Read = rapid.IntRange(0, 3).Draw(t, "read")
			c.Muts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []int {
				m := []int{rapid.IntRange(0, 5).Draw(t, "rec")}
				for k := rapid.IntRange(1, 4).Draw(t, "n"); k > 0; k-- {
					m = append(m, rapid.IntRange(0, 70000).Draw(t, "pos"), rapid.IntRange(1, 255).Draw(t, "xor"))
				}
				return m
			}), 0, 20).Draw(t, "muts")
			c.Tail = rapid.IntRange(0, 600).Draw(t, "tail")
			if rapid.IntRange(0, 30).Draw(t, "longtail") == 30 {
				c.Tail = 70000
			}
			c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
			c.Fix = rapid.Bool().Draw(t, "fix")
			return c
		},
		Exec:  execRecords,
		Quick: Budget{Cases: 100000, Seconds: 40}, Thorough: Budget{Cases: 3000000, Seconds: 600},
	})
}

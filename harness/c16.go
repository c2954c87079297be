package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"

	uuid "github.com/satori/go.uuid"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/nvm"
	"pgregory.net/rapid"
)

// HeaderCase is a valid header plus changes to its encoding.
type HeaderCase struct {
	BS   int // block size / 512
	UUID []byte
	J, D uint64 // region sizes in blocks
	Muts []HeaderMut
	File bool // go through files and nvm.Open
	JB   int  // blocks of the journal and data regions of the device to split
	DB   int
	Rest []byte // bytes behind the header
}

// HeaderMut replaces W bytes at Off by V.
type HeaderMut struct {
	Off, W int
	V      uint64
}

const (
	headerFull   = 44
	headerInside = 38 // what the header size field says: everything behind it
)

type headerFields struct {
	bs   uint16
	uuid []byte
	j, d uint64
}

// parseHeader is the reference decoder.
func parseHeader(b []byte) (f headerFields, ok bool) {
	if len(b) < headerFull || string(b[:4]) != "lusf" || binary.BigEndian.Uint16(b[4:]) != headerInside ||
		binary.BigEndian.Uint16(b[6:]) != 2 || binary.BigEndian.Uint16(b[8:]) != 1 {
		return f, false
	}
	f.bs = binary.BigEndian.Uint16(b[10:])
	if f.bs < 512 || f.bs%512 != 0 {
		return f, false
	}
	f.uuid = b[12:28]
	f.j, f.d = binary.BigEndian.Uint64(b[28:]), binary.BigEndian.Uint64(b[36:])
	if f.j > 1<<40-1 || f.d > (1<<40-1)*512 || f.j%uint64(f.bs) != 0 || f.d%uint64(f.bs) != 0 {
		return f, false
	}
	return f, true
}

func compareHeader(h *nvm.StorageHeader, f headerFields) error {
	if h.MajorVersion != 2 || h.MinorVersion != 1 || h.BlockSize.AsU16() != f.bs || !bytes.Equal(h.UUID.Bytes(), f.uuid) ||
		h.JournalRegionSize != f.j || h.DataRegionSize != f.d {
		return violate("header-value", "read %+v instead of version 2.1, block size %d, uuid %x, regions %d and %d", h, f.bs, f.uuid, f.j, f.d)
	}
	return nil
}

// judgeHeader decodes b and compares with the reference decoder.
func judgeHeader(b []byte, what string) (bool, error) {
	h, err := nvm.ReadFrom(bytes.NewReader(b))
	f, ok := parseHeader(b)
	if ok != (err == nil) {
		if ok {
			return ok, violate("header-refused", "a valid header is refused (%s): %v\n%x", what, err, cutBytes(b, 64))
		}
		return ok, violate("header-accepted", "an invalid header is accepted (%s) as %+v\n%x", what, h, cutBytes(b, 64))
	}
	if ok {
		return ok, compareHeader(h, f)
	}
	return ok, nil
}

func cutBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func execHeader(r *Run, c HeaderCase) error {
	bs, err := block.NewBlockSize(uint16(c.BS * 512))
	if err != nil {
		return violate("blocksize", "NewBlockSize(%d): %v", c.BS*512, err)
	}
	id, _ := uuid.FromBytes(c.UUID)
	b := uint64(bs.AsU16())
	h := &nvm.StorageHeader{MajorVersion: nvm.MAJOR_VERSION, MinorVersion: nvm.MINOR_VERSION, BlockSize: bs, UUID: id, JournalRegionSize: c.J * b, DataRegionSize: c.D * b}
	for h.JournalRegionSize > nvm.MAX_JOURNAL_REGION_SIZE {
		h.JournalRegionSize -= b
	}
	for h.DataRegionSize > nvm.MAX_DATA_REGION_SIZE {
		h.DataRegionSize -= b
	}
	want := headerFields{bs.AsU16(), c.UUID, h.JournalRegionSize, h.DataRegionSize}
	var plain, region bytes.Buffer
	if err := h.WriteTo(&plain); err != nil {
		return violate("header-write", "%v", err)
	}
	if plain.Len() != int(nvm.FULL_HEADER_SIZE) {
		return violate("header-size", "the header takes %d bytes, declared %d", plain.Len(), nvm.FULL_HEADER_SIZE)
	}
	if err := h.WriteHeaderRegionTo(&region); err != nil {
		return violate("header-write", "%v", err)
	}
	if uint64(region.Len()) != h.RegionSize() || h.RegionSize() != b {
		return violate("header-padding", "the header region takes %d bytes, RegionSize()=%d, block size %d", region.Len(), h.RegionSize(), b)
	}
	if !bytes.Equal(region.Bytes()[:plain.Len()], plain.Bytes()) || len(bytes.Trim(region.Bytes()[plain.Len():], "\x00")) != 0 {
		return violate("header-padding", "the header region is not the header and zeroes")
	}
	if h.StorageSize() != b+h.JournalRegionSize+h.DataRegionSize {
		return violate("header-storage-size", "StorageSize()=%d for regions %d, %d, %d", h.StorageSize(), b, h.JournalRegionSize, h.DataRegionSize)
	}
	for _, enc := range [][]byte{plain.Bytes(), region.Bytes(), append(append([]byte(nil), plain.Bytes()...), c.Rest...)} {
		got, err := nvm.ReadFrom(bytes.NewReader(enc))
		if err != nil {
			return violate("header-refused", "the written header %+v is refused: %v", h, err)
		}
		if err := compareHeader(got, want); err != nil {
			return err
		}
	}
	// every truncation
	for n := 0; n < plain.Len(); n++ {
		if got, err := nvm.ReadFrom(bytes.NewReader(plain.Bytes()[:n])); err == nil {
			return violate("header-truncated", "the first %d bytes of a header are accepted as %+v", n, got)
		}
	}
	// every single bit changed: judged by the reference decoder
	var accepted, refused int64
	for _, enc := range [][]byte{plain.Bytes(), region.Bytes()} {
		m := append([]byte(nil), enc...)
		for p := 0; p < headerFull; p++ {
			for bit := 0; bit < 8; bit++ {
				m[p] ^= 1 << bit
				ok, err := judgeHeader(m, fmt.Sprintf("bit %d of byte %d changed", bit, p))
				if err != nil {
					return err
				}
				m[p] ^= 1 << bit
				if ok {
					accepted++
				} else {
					refused++
				}
			}
		}
		// field changes, one by one and together
		all := append([]byte(nil), enc...)
		for _, mu := range c.Muts {
			one := append([]byte(nil), enc...)
			for _, x := range [][]byte{one, all} {
				var v [8]byte
				binary.BigEndian.PutUint64(v[:], mu.V)
				copy(x[mu.Off:mu.Off+mu.W], v[8-mu.W:])
				ok, err := judgeHeader(x, fmt.Sprintf("field at %d set to %d", mu.Off, mu.V))
				if err != nil {
					return err
				}
				if ok {
					accepted++
				} else {
					refused++
				}
			}
		}
		if c.File {
			// through nvm.Open; the device's size is what the header says
			path := filepath.Join(r.Dir, fmt.Sprintf("h%d.lusf", len(all)))
			if err := os.WriteFile(path, all, 0644); err != nil {
				harnessFail(err)
			}
			f, ok := parseHeader(all)
			dev, got, err := nvm.Open(path)
			if ok != (err == nil) {
				return violate("header-open", "nvm.Open: %v, the header's validity is %v: %x", err, ok, all[:headerFull])
			}
			if ok {
				if err := compareHeader(got, f); err != nil {
					return err
				}
				if dev.Capacity() != uint64(f.bs)+f.j+f.d {
					return violate("header-device", "the opened device has %d bytes, the header says %d", dev.Capacity(), uint64(f.bs)+f.j+f.d)
				}
				if dev.Capacity() < 1<<62 {
					if err := checkRegions(got, dev); err != nil {
						return err
					}
				}
				dev.Close()
			}
		}
	}
	// the regions of a device
	small := *h
	small.JournalRegionSize, small.DataRegionSize = uint64(c.JB)*b, uint64(c.DB)*b
	dev, err := nvm.New(small.StorageSize())
	if err != nil {
		return violate("memory-device", "%v", err)
	}
	if err := checkRegions(&small, dev); err != nil {
		return err
	}
	if err := checkPartition(&small, dev); err != nil {
		return err
	}
	r.Count("changed_headers_accepted", accepted)
	r.Count("changed_headers_refused", refused)
	if accepted > 0 && refused > 0 {
		r.NonTrivial()
	}
	return nil
}

func checkRegions(h *nvm.StorageHeader, dev nvm.NonVolatileMemory) error {
	j, d := h.SplitRegion(dev)
	if j == nil || d == nil {
		return violate("header-split", "the device of %d bytes is not split", dev.Capacity())
	}
	if j.Capacity() != h.JournalRegionSize || d.Capacity() != dev.Capacity()-h.RegionSize()-h.JournalRegionSize {
		return violate("header-split", "regions of %d and %d bytes of a device of %d bytes with header %+v", j.Capacity(), d.Capacity(), dev.Capacity(), h)
	}
	return nil
}

// checkPartition marks the regions through their views and looks at the whole device.
func checkPartition(h *nvm.StorageHeader, dev *nvm.MemoryNVM) error {
	j, d := h.SplitRegion(dev)
	for k, v := range []nvm.NonVolatileMemory{j, d} {
		buf := bytes.Repeat([]byte{byte(k + 1)}, int(v.Capacity()))
		if len(buf) == 0 {
			continue
		}
		if _, err := v.Write(buf); err != nil {
			return violate("header-split", "writing region %d: %v", k, err)
		}
	}
	want := make([]byte, dev.Capacity())
	for i := range want {
		switch {
		case uint64(i) < h.RegionSize():
		case uint64(i) < h.RegionSize()+h.JournalRegionSize:
			want[i] = 1
		default:
			want[i] = 2
		}
	}
	if !bytes.Equal(dev.AsBytes(), want) {
		return violate("header-partition", "header, journal (%d bytes) and data (%d bytes) do not follow each other on the device of %d bytes", h.JournalRegionSize, h.DataRegionSize, dev.Capacity())
	}
	return nil
}

func genHeaderMut(t *rapid.T) HeaderMut {
	type fld struct{ off, w int }
	f := rapid.SampledFrom([]fld{{0, 4}, {4, 2}, {4, 2}, {6, 2}, {8, 2}, {10, 2}, {10, 2}, {10, 2}, {12, 8}, {28, 8}, {28, 8}, {28, 8}, {36, 8}, {36, 8}, {36, 8}}).Draw(t, "field")
	m := HeaderMut{Off: f.off, W: f.w}
	switch f.off {
	case 4:
		m.V = uint64(rapid.SampledFrom([]int{0, 1, 37, 38, 39, 40, 100, 512, 65535, 474, 506}).Draw(t, "v"))
	case 6, 8:
		m.V = uint64(rapid.SampledFrom([]int{0, 1, 2, 3, 256, 257, 512, 65535}).Draw(t, "v"))
	case 10:
		m.V = uint64(rapid.SampledFrom([]int{0, 1, 511, 512, 513, 768, 1024, 1536, 4096, 32768, 65024, 65535}).Draw(t, "v"))
	case 28, 36:
		lim := uint64(1<<40 - 1)
		if f.off == 36 {
			lim *= 512
		}
		m.V = rapid.SampledFrom([]uint64{0, 1, 511, 512, 1024, 65536, lim - lim%512, lim, lim + 1, lim - lim%512 + 512, lim - lim%512 + 511, 1 << 63, 1<<64 - 512, 1<<64 - 1, 127 * 512 * 512}).Draw(t, "v")
	default:
		m.V = rapid.Uint64().Draw(t, "v")
	}
	return m
}

func init() {
	register(&PBT[HeaderCase]{
		Id: "C16",
		RuleText: "rapid draws a valid header (any block size, region sizes up to the limits), field changes and a small geometry; the header is written, measured, read back, truncated at every length, " +
			"read with every single bit and every drawn field changed (accepted exactly if the reference decoder says the fields are valid, with its values), through nvm.Open in files, and a device is split by it and marked region by region. " +
			"Non-trivial: some changed headers were valid and some were not.",
		Gen: func(t *rapid.T, tier string) HeaderCase {
			var c HeaderCase
			c.BS = rapid.SampledFrom([]int{1, 1, 1, 2, 3, 8, 64, 127}).Draw(t, "bs")
			c.UUID = rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "uuid")
			size := func(l string, lim uint64) uint64 {
				lim /= uint64(c.BS) * 512
				switch rapid.IntRange(0, 3).Draw(t, l+"kind") {
				case 0:
					return lim - uint64(rapid.IntRange(0, 2).Draw(t, l))
				case 1:
					return rapid.Uint64Range(0, lim).Draw(t, l)
				}
				return uint64(rapid.IntRange(0, 100).Draw(t, l))
			}
			c.J, c.D = size("j", 1<<40-1), size("d", (1<<40-1)*512)
			c.Muts = rapid.SliceOfN(rapid.Custom(genHeaderMut), 0, 6).Draw(t, "muts")
			c.File = rapid.Bool().Draw(t, "file")
			c.JB, c.DB = rapid.IntRange(0, 6).Draw(t, "jb"), rapid.IntRange(0, 6).Draw(t, "db")
			c.Rest = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "rest")
			return c
		},
		Exec:  execHeader,
		Quick: Budget{Cases: 100000, Seconds: 40}, Thorough: Budget{Cases: 3000000, Seconds: 600},
	})
}

package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
	"pgregory.net/rapid"
)

// CLIOp is one call of the command-line tool, or something done to the store between calls:
//
//	text, file (put), get, del, dump, header, replay, journal, gc, resize, create, bad (a call with impossible arguments),
//	busy (a call while another program has the store open), lib (an operation through the library),
//	snap (another program makes a snapshot), snapcheck (another program reads it, and deletes it if N is odd)
type CLIOp struct {
	Op
	Size64 uint64 `json:",omitempty"`
	Lib    *Op    `json:",omitempty"`
	Eq     bool   `json:",omitempty"` // --flag=value instead of --flag value
}

// C19Case is a history of calls.
type C19Case struct {
	Cap uint64
	Ops []CLIOp
}

type cliWorld struct {
	*World
	bin  string
	uuid string
	n    int
	img  *snapImage // what the snapshot has to contain
}

// call runs the tool.
func (w *cliWorld) call(args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(w.bin, "kanils"), args...)
	cmd.Dir = w.R.Dir
	cmd.Env = append(os.Environ(), "GORACE=", "GOTRACEBACK=single", "GOMAXPROCS=2")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		return so.String(), violate("cli-hang", "kanils %s did not end in 120 s", strings.Join(args[:1], " "))
	}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			harnessFail(err)
		}
	}
	w.R.Count("calls", 1)
	if e := se.String(); strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:") || strings.Contains(e, "[signal ") {
		if len(e) > 1500 {
			e = e[:1500]
		}
		return so.String(), violate("cli-crash", "kanils %.300q crashed: %s", args, e)
	}
	if err != nil && so.Len() == 0 && se.Len() == 0 {
		return "", violate("cli-silent", "kanils %.300q failed (%v) without saying why", args, err)
	}
	return snapNotes.ReplaceAllString(so.String(), "") + se.String(), nil
}

// snapNotes is what the library prints when it finds a snapshot.
var snapNotes = regexp.MustCompile(`\A(found snapshot file [^\n]*\n)?(header is &\{[^\n]*\n)?`)

// said is what a call printed, without the note the library prints when it closes a store.
func said(out string) string {
	return strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(out), "close"))
}

func (w *cliWorld) flags(eq bool, kv ...string) []string {
	var out []string
	for i := 0; i < len(kv); i += 2 {
		if eq || strings.HasPrefix(kv[i+1], "-") {
			out = append(out, "--"+kv[i]+"="+kv[i+1])
		} else {
			out = append(out, "--"+kv[i], kv[i+1])
		}
	}
	return out
}

// look opens the store through the library and compares everything.
func (w *cliWorld) look(class string) error {
	st, err := openBounded(w.Path, w.G.capacity())
	if err != nil {
		return wrapClass(class, err)
	}
	w.St = st
	defer w.Close()
	if err := w.checkAll(); err != nil {
		return wrapClass(class, err)
	}
	return wrapClass(class, w.checkSpace())
}

// roomy says that neither the journal nor the data area can be an excuse for refusing an object.
func (w *cliWorld) roomy(id uint64, size int, embed bool) bool {
	if w.G.J < 17 {
		return false
	}
	live := 40 * (len(w.Model) + 1)
	for _, o := range w.Model {
		if o.Embed {
			live += len(o.Data)
		}
	}
	if embed {
		live += size
	}
	if int64(live) > w.Ring/8 {
		return false
	}
	if embed {
		return true
	}
	st, err := storage.OpenCannylsStorage(w.Path)
	if err != nil {
		return false
	}
	w.St = st
	defer w.Close()
	return w.freeRun(math.MaxUint64-12345) >= blocksFor(size)
}

// textValue is a value that can be passed as an argument.
func textValue(seed, size int) []byte {
	b := payload(seed, size)
	for i := range b {
		switch {
		case seed%3 == 0:
			b[i] = ' ' + b[i]%95
		case b[i] == 0:
			b[i] = 1
		}
	}
	if size > 0 && b[0] == '@' {
		b[0] = 'A'
	}
	return b
}

func (w *cliWorld) step(op CLIOp) error {
	id := op.ID
	key := fmt.Sprint(id)
	old := w.Model[id]
	switch op.K {
	case "text", "file":
		var data []byte
		value := ""
		embed := op.K == "text"
		if embed {
			data = textValue(op.Seed, op.Size)
			value = string(data)
		} else {
			data = payload(op.Seed, op.Size)
			w.n++
			name := filepath.Join(w.R.Dir, fmt.Sprintf("input%d", w.n))
			if err := os.WriteFile(name, data, 0644); err != nil {
				harnessFail(err)
			}
			defer os.Remove(name)
			value = "@" + name
			if op.N == 1 {
				value = "@" + filepath.Base(name)
			}
		}
		must := w.roomy(id, op.Size, embed) && !(embed && op.Size > 0xFFFF)
		out, err := w.call(append([]string{"Put"}, w.flags(op.Eq, "storage", w.Path, "key", key, "value", value)...)...)
		if err != nil {
			return err
		}
		st, err := openBounded(w.Path, w.G.capacity())
		if err != nil {
			return err
		}
		w.St = st
		got, gerr := st.Get(lid(id))
		w.Close()
		if said(out) == "" {
			// success
			if embed && op.Size > 0xFFFF {
				return violate("oversize", "Put of a value of %d bytes reported nothing", op.Size)
			}
			if gerr != nil || !bytes.Equal(got, data) {
				return violate("cli-put", "Put (%s) of %d bytes under %d reported nothing, but reading it gives %d bytes, %v: %s", op.K, op.Size, id, len(got), gerr, diffBytes(got, data))
			}
			if embed {
				w.Model[id] = &Obj{Data: data, Embed: true}
			} else {
				w.Model[id] = dataObj(data)
				w.R.Label("file-stored")
			}
			return w.look("after-put-")
		}
		if must {
			return violate("cli-put", "Put (%s) of %d bytes under %d failed although there is room: %.300s", op.K, op.Size, id, said(out))
		}
		w.R.Label("put-refused")
		if old == nil {
			if gerr == nil {
				return violate("failed-op-effect", "Put (%s) of %d bytes under %d said %.300s, but the id exists now", op.K, op.Size, id, said(out))
			}
		} else if gerr != nil {
			if embed {
				return violate("failed-op-effect", "the refused Put of a value of %d bytes under %d removed the old object", op.Size, id)
			}
			delete(w.Model, id) // it made room for the new one in vain
		}
		return w.look("after-refused-put-")
	case "get":
		out, err := w.call(append([]string{"Get"}, w.flags(op.Eq, "storage", w.Path, "key", key)...)...)
		if err != nil {
			return err
		}
		if old == nil {
			if strings.HasPrefix(out, "value:") || said(out) == "" {
				return violate("cli-get", "Get of absent key %d printed %.300q", id, out)
			}
			w.R.Label("absent-get")
			return nil
		}
		want := "value: " + string(old.Data)
		if !strings.HasPrefix(out, want) || said(out[len(want):]) != "" {
			return violate("cli-get", "Get of key %d (%d bytes) printed %d bytes: %.300q, want %.300q", id, len(old.Data), len(out), out, want)
		}
		w.R.Label("get")
	case "dump":
		out, err := w.call(append([]string{"Dump"}, w.flags(op.Eq, "storage", w.Path)...)...)
		if err != nil {
			return err
		}
		var want bytes.Buffer
		for _, k := range w.sortedIDs() {
			fmt.Fprintf(&want, "%x :%s\n", k, w.Model[k].Data)
		}
		if !strings.HasPrefix(out, want.String()) || said(out[want.Len():]) != "" {
			return violate("cli-dump", "Dump of %d objects printed %d bytes, want %d: %.300q", len(w.Model), len(out), want.Len(), out)
		}
		w.R.Label("dump")
	case "del":
		out, err := w.call(append([]string{"Delete"}, w.flags(op.Eq, "storage", w.Path, "key", key)...)...)
		if err != nil {
			return err
		}
		if old != nil {
			st, err := openBounded(w.Path, w.G.capacity())
			if err != nil {
				return err
			}
			_, gerr := st.Get(lid(id))
			st.Close()
			switch {
			case gerr != nil:
				delete(w.Model, id)
				w.R.Label("delete")
			case strings.Contains(out, "is deleted") || w.G.J >= 17:
				return violate("cli-delete", "Delete of key %d printed %.300q, but the object is still there", id, out)
			}
		}
		return w.look("after-delete-")
	case "header", "replay":
		args := append([]string{"Header"}, w.flags(op.Eq, "storage", w.Path)...)
		if op.K == "replay" {
			args = append(args, "--replay")
		}
		out, err := w.call(args...)
		if err != nil {
			return err
		}
		field := func(re string) string {
			m := regexp.MustCompile(re).FindStringSubmatch(out)
			if m == nil {
				return ""
			}
			return m[1]
		}
		if j, d := field(`Journal Region Size (\d+)`), field(`Data +Region Size (\d+)`); j != fmt.Sprint(w.G.J*blk) || d != fmt.Sprint(w.G.D*blk) {
			return violate("cli-header", "Header reports %q/%q journal/data bytes, want %d/%d", j, d, w.G.J*blk, w.G.D*blk)
		}
		if b := field(`Block Size (\d+)`); b != "512" {
			return violate("cli-header", "Header reports a block size of %q", b)
		}
		u := field(`UUID +([0-9a-f-]{36})`)
		if u == "" || w.uuid != "" && u != w.uuid {
			return violate("cli-header", "Header reports UUID %q, before it was %q", u, w.uuid)
		}
		w.uuid = u
		if op.K == "replay" {
			if n := field(`file counts (\d+)`); n != fmt.Sprint(len(w.Model)) {
				return violate("cli-header", "Header --replay reports %q objects, there are %d", n, len(w.Model))
			}
		}
	case "journal":
		before := mustRead(w.Path)
		out, err := w.call(append([]string{"Journal"}, w.flags(op.Eq, "storage", w.Path)...)...)
		if err != nil {
			return err
		}
		if said(out) == "" {
			return violate("cli-journal", "Journal printed nothing")
		}
		_ = before
		return w.look("after-journal-")
	case "gc":
		out, err := w.call(append([]string{"JournalGC"}, w.flags(op.Eq, "storage", w.Path)...)...)
		if err != nil {
			return err
		}
		if said(out) == "" {
			return violate("cli-journal", "JournalGC printed nothing")
		}
		w.R.Label("gc")
		return w.look("after-gc-")
	case "resize":
		out, err := w.call(append([]string{"Resize"}, w.flags(op.Eq, "storage", w.Path, "size", fmt.Sprint(op.Size64))...)...)
		if err != nil {
			return err
		}
		nd := op.Size64 / blk
		if nd > uint64(w.G.D) && nd <= nvm.MAX_DATA_REGION_SIZE/blk {
			if nd > 1<<31 {
				w.R.Label("grown-huge")
			}
			w.G.D = int(nd)
			w.R.Label("grown")
			if err := w.look("after-resize-"); err != nil {
				return wrapClass("", fmt.Errorf("%w (it printed %.300q)", err, out))
			}
			return nil
		}
		if said(out) == "" {
			return violate("cli-silent", "Resize to %d bytes of a store with %d data bytes said nothing", op.Size64, w.G.D*blk)
		}
		w.R.Label("resize-refused")
		return w.look("after-refused-resize-")
	case "create":
		before := mustRead(w.Path)
		out, err := w.call(append([]string{"Create"}, w.flags(op.Eq, "storage", w.Path, "capacity", fmt.Sprint(op.Size64))...)...)
		if err != nil {
			return err
		}
		if !bytes.Equal(before, mustRead(w.Path)) {
			return violate("cli-create", "Create over an existing store changed it (%.200q)", out)
		}
		w.R.Label("create-refused")
	case "bad":
		before := mustRead(w.Path)
		big := filepath.Join(w.R.Dir, "big")
		missing := filepath.Join(w.R.Dir, "missing.lusf")
		var args []string
		switch op.N {
		case 0:
			args = []string{"Put", "--storage", w.Path, "--key", key, "--value", "@" + filepath.Join(w.R.Dir, "none")}
		case 1:
			args = []string{"Put", "--storage", w.Path, "--key", key, "--value", "@" + w.R.Dir}
		case 2:
			f, err := os.Create(big)
			if err != nil {
				harnessFail(err)
			}
			f.Truncate(lump.LUMP_MAX_SIZE + 1)
			f.Close()
			defer os.Remove(big)
			args = []string{"Put", "--storage", w.Path, "--key", key, "--value", "@" + big}
		case 3:
			args = []string{"Put", "--storage", missing, "--key", key, "--value", "x"}
		case 4:
			args = []string{"Put", "--storage", w.Path, "--key", "18446744073709551616", "--value", "x"}
		case 5:
			args = []string{"Put", "--storage", w.Path, "--key", "-1", "--value", "x"}
		case 6:
			args = []string{"Delete", "--storage", missing, "--key", key}
		case 7:
			args = []string{"Get", "--storage", missing, "--key", key}
		case 8:
			args = []string{"Delete", "--storage", w.Path, "--key", "12x"}
		case 9:
			args = []string{"Resize", "--storage", missing, "--size", "100000"}
		case 10:
			args = []string{"Dump", "--storage", missing}
		case 11:
			args = []string{"Nothing", "--storage", w.Path}
		case 12:
			args = []string{"Create", "--storage", missing, "--capacity", fmt.Sprint(op.Size64 % 1537)} // too small
		case 13:
			args = []string{"JournalGC", "--storage", missing}
		}
		out, err := w.call(args...)
		if err != nil {
			return err
		}
		if said(out) == "" {
			return violate("cli-silent", "kanils %.300q said nothing", args)
		}
		if !bytes.Equal(before, mustRead(w.Path)) {
			return violate("cli-bad-call", "kanils %.300q changed the store (it printed %.300q)", args, out)
		}
		if _, err := os.Stat(missing); err == nil {
			return violate("cli-bad-call", "kanils %.300q created %s", args, missing)
		}
		w.R.Label("bad-call")
	case "busy":
		st, err := openBounded(w.Path, w.G.capacity())
		if err != nil {
			return err
		}
		w.St = st
		before := mustRead(w.Path)
		args := [][]string{{"Put", "--storage", w.Path, "--key", key, "--value", "x"}, {"Delete", "--storage", w.Path, "--key", key},
			{"JournalGC", "--storage", w.Path}, {"Resize", "--storage", w.Path, "--size", fmt.Sprint((w.G.D + 5) * blk)}, {"Dump", "--storage", w.Path}}[op.N%5]
		out, err := w.call(args...)
		w.Close()
		if err != nil {
			return err
		}
		if said(out) == "" {
			return violate("cli-silent", "kanils %.300q on a store that is in use said nothing", args)
		}
		if b := mustRead(w.Path); len(b) < len(before) {
			return violate("cli-bad-call", "kanils %.300q on a store that is in use changed it", args)
		}
		w.R.Label("busy")
		return w.look("after-busy-")
	case "bench":
		// the write benchmarks work on a store of their own
		path := filepath.Join(w.R.Dir, "bench.lusf")
		defer os.Remove(path)
		name := []string{"WBench", "WRBench"}[op.N%2]
		args := []string{name, "--storage", path, "--count", fmt.Sprint(op.Seed), "--size", fmt.Sprint(op.Size)}
		embed := op.N&2 != 0
		if embed {
			args = append(args, "--always=false")
		}
		if op.N&4 != 0 {
			args = append(args, "--sync=false")
		}
		out, err := w.call(args...)
		if err != nil {
			return err
		}
		if said(out) == "" {
			return violate("cli-silent", "kanils %.300q said nothing", args)
		}
		if _, err := os.Stat(path); err != nil {
			return nil // too small
		}
		st, err := openBounded(path, uint64(op.Seed*op.Size+4096))
		if err != nil {
			return wrapClass("after-bench-", err)
		}
		defer st.Close()
		ids := st.List()
		for i, id := range ids {
			if id.U64() >= uint64(op.Seed) || name == "WBench" && id.U64() != uint64(i) {
				return violate("cli-bench", "kanils %.300q left the ids %v", args, ids)
			}
			b, err := st.Get(id)
			if err != nil || len(b) != op.Size || bytes.Count(b, []byte{'A'}) != op.Size {
				return violate("cli-bench", "kanils %.300q left %d bytes under %d: %v", args, len(b), id.U64(), err)
			}
			if _, err := st.GetRecord(id); (err != nil) != (embed && op.Size <= 4096) {
				return violate("cli-bench", "kanils %.300q stored object %d in the wrong area", args, id.U64())
			}
		}
		if name == "WBench" && strings.Contains(out, "total =") && len(ids) != op.Seed {
			return violate("cli-bench", "kanils %.300q said it is done but left %d objects", args, len(ids))
		}
		w.R.Label("bench")
		return w.look("after-bench-")
	case "lib":
		st, err := openBounded(w.Path, w.G.capacity())
		if err != nil {
			return err
		}
		w.St = st
		defer w.Close()
		w.R.Label("other-program")
		return w.Step(*op.Lib)
	case "snap", "snapcheck":
		if (op.K == "snap") == (w.img != nil) {
			return nil
		}
		return w.snapshot(op.K == "snap", op.N)
	default:
		harnessFail(fmt.Errorf("unknown op %q", op.K))
	}
	return nil
}

// snapshot makes a snapshot through the library, or reads the one there is and compares it with the file of that moment.
func (w *cliWorld) snapshot(create bool, n int) error {
	defer func() { nvm.DEFAULT_REGION_SHIFT = 25 }()
	nvm.DEFAULT_REGION_SHIFT = uint16(20 + n%3)
	st, err := openBounded(w.Path, w.G.capacity())
	if err != nil {
		return err
	}
	defer st.Close()
	if create {
		if err := st.CreateSnapshot(); err != nil {
			return violate("cli-snapshot", "CreateSnapshot: %v", err)
		}
		w.img = &snapImage{raw: mustRead(w.Path)}
		w.R.Label("snapshot")
		return nil
	}
	rd, err := st.GetSnapshotReader()
	if err != nil {
		return violate("cli-snapshot", "GetSnapshotReader: %v", err)
	}
	if err := wholeImage(rd, w.img, 1<<20); err != nil {
		return wrapClass("cli-", err)
	}
	w.R.Label("snapshot-read")
	if n%2 == 1 {
		if err := st.DeleteSnapshot(); err != nil {
			return violate("cli-snapshot", "DeleteSnapshot: %v", err)
		}
		w.img = nil
	}
	return nil
}

func execC19(r *Run, c C19Case) error {
	bin := os.Getenv("VERIF_BIN")
	if bin == "" {
		harnessFail(fmt.Errorf("VERIF_BIN is not set"))
	}
	w := &cliWorld{World: &World{R: r, Path: filepath.Join(r.Dir, "store.lusf"), Model: map[uint64]*Obj{}, Autogc: true}, bin: bin}
	out, err := w.call("Create", "--storage", w.Path, "--capacity", fmt.Sprint(c.Cap))
	if err != nil {
		return err
	}
	g, ok := C14Create{Name: "store.lusf", Cap: (c.Cap + blk - 1) / blk * blk, Ratio: "0.1"}.geometry()
	_, serr := os.Stat(w.Path)
	if !ok {
		if serr == nil || said(out) == "" {
			return violate("cli-create", "Create with a capacity of %d printed %.200q, the file exists: %v", c.Cap, out, serr == nil)
		}
		r.Label("create-refused-small")
		return nil
	}
	if serr != nil {
		return violate("cli-create", "Create with a capacity of %d: %.300q", c.Cap, out)
	}
	w.G, w.Ring = g, int64(g.J-1)*blk
	if err := w.look("after-create-"); err != nil {
		return err
	}
	changed := false
	for i, op := range c.Ops {
		if err := w.step(op); err != nil {
			return at(err, i)
		}
		changed = changed || len(w.Model) > 0
	}
	if err := w.look("final-"); err != nil {
		return err
	}
	if w.img != nil {
		if err := w.snapshot(false, 0); err != nil {
			return err
		}
	}
	if changed && len(c.Ops) >= 3 {
		r.NonTrivial()
	}
	return nil
}

// genC19Grown is a store which grows far beyond the size it had when its snapshot was made.
func genC19Grown(t *rapid.T) C19Case {
	c := C19Case{Cap: uint64(rapid.IntRange(4096, 3<<20).Draw(t, "cap"))}
	file := func(id uint64, size int) {
		c.Ops = append(c.Ops, CLIOp{Op: Op{K: "file", ID: id, Seed: genPayloadSeed(t), Size: size}})
	}
	if rapid.Bool().Draw(t, "first") {
		file(1, rapid.IntRange(0, int(c.Cap)*8/10-1536).Draw(t, "size1"))
	}
	c.Ops = append(c.Ops, CLIOp{Op: Op{K: "snap", N: rapid.IntRange(0, 1).Draw(t, "shift")}}, CLIOp{Op: Op{K: "resize"}, Size64: uint64(rapid.IntRange(40, 200).Draw(t, "mb")) << 20})
	for i := 0; i < 2; i++ {
		file(uint64(10+i), rapid.SampledFrom([]int{lump.LUMP_MAX_SIZE, 20 << 20, 5 << 20}).Draw(t, "size"))
	}
	file(1, 600)
	c.Ops = append(c.Ops, CLIOp{Op: Op{K: "snapcheck", N: rapid.IntRange(0, 5).Draw(t, "n")}})
	return c
}

func genC19(t *rapid.T, tier string) C19Case {
	var c C19Case
	switch rapid.IntRange(0, 9).Draw(t, "capkind") {
	case 0:
		c.Cap = uint64(rapid.IntRange(0, 4000).Draw(t, "cap"))
	case 1, 2, 3:
		c.Cap = uint64(rapid.IntRange(2048, 20000).Draw(t, "cap"))
	case 4, 5, 6, 7:
		c.Cap = uint64(rapid.IntRange(90000, 400000).Draw(t, "cap"))
	default:
		c.Cap = uint64(rapid.IntRange(1<<20, 80<<20).Draw(t, "cap"))
	}
	ids := genIDs(t)
	kinds := expand([]weighted{{"text", 5}, {"file", 6}, {"get", 5}, {"del", 3}, {"dump", 2}, {"header", 1}, {"replay", 1}, {"journal", 1}, {"gc", 2}, {"resize", 2},
		{"create", 1}, {"bad", 2}, {"busy", 1}, {"lib", 2}, {"bench", 1}, {"snap", 1}, {"snapcheck", 1}})
	if rare(t, 60) {
		return genC19Grown(t)
	}
	d := int(c.Cap / blk)
	n := rapid.IntRange(1, 16).Draw(t, "n")
	for i := 0; i < n; i++ {
		op := CLIOp{Op: Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), ID: rapid.SampledFrom(ids).Draw(t, "id")}, Eq: rapid.Bool().Draw(t, "eq")}
		switch op.K {
		case "text":
			op.Seed, op.Size = genPayloadSeed(t), rapid.IntRange(0, 300).Draw(t, "size")
			switch rapid.IntRange(0, 9).Draw(t, "sk") {
			case 8:
				op.Size = rapid.IntRange(0, 5000).Draw(t, "size2")
			case 9:
				op.Size = rapid.SampledFrom([]int{65534, 65535, 65536, 100000}).Draw(t, "size3")
			}
		case "file":
			op.Seed, op.N = genPayloadSeed(t), rapid.IntRange(0, 1).Draw(t, "rel")
			op.Size = genSize(t, 6)
			switch rapid.IntRange(0, 19).Draw(t, "sk") {
			case 16, 17:
				op.Size = rapid.IntRange(0, 100000).Draw(t, "size2")
			case 18:
				op.Size = rapid.IntRange(0, d*blk+600).Draw(t, "size3")
			case 19:
				op.Size = rapid.IntRange(0, 4<<20).Draw(t, "size4")
			}
			if op.Size > lump.LUMP_MAX_SIZE {
				op.Size = lump.LUMP_MAX_SIZE
			}
		case "resize":
			switch rapid.IntRange(0, 6).Draw(t, "rk") {
			case 6:
				op.Size64 = rapid.SampledFrom([]uint64{nvm.MAX_DATA_REGION_SIZE - 1, nvm.MAX_DATA_REGION_SIZE, nvm.MAX_DATA_REGION_SIZE + 1, nvm.MAX_DATA_REGION_SIZE + 511,
					nvm.MAX_DATA_REGION_SIZE + 512, 1 << 50, 1<<63 - 1, 1 << 63, math.MaxUint64 - 511, math.MaxUint64}).Draw(t, "huge")
			case 0, 1, 2:
				d += rapid.IntRange(0, 40).Draw(t, "more")
				op.Size64 = uint64(d*blk + rapid.IntRange(-512, 511).Draw(t, "odd"))
			case 3:
				op.Size64 = uint64(rapid.IntRange(0, d*blk).Draw(t, "less"))
			case 4:
				d += rapid.IntRange(1000, 100000).Draw(t, "much")
				op.Size64 = uint64(d) * blk
			default:
				op.Size64 = uint64(rapid.SampledFrom([]int{0, 1, 511, 512, 1 << 30, 1 << 36}).Draw(t, "fixed"))
			}
		case "create":
			op.Size64 = uint64(rapid.IntRange(0, 100000).Draw(t, "cap2"))
		case "bad":
			op.N = rapid.IntRange(0, 13).Draw(t, "which")
			op.Size64 = uint64(rapid.IntRange(0, 2048).Draw(t, "small"))
		case "snap", "snapcheck":
			op.N = rapid.IntRange(0, 5).Draw(t, "n")
		case "busy":
			op.N = rapid.IntRange(0, 4).Draw(t, "which")
		case "bench":
			op.N, op.Seed, op.Size = rapid.IntRange(0, 7).Draw(t, "flags"), rapid.IntRange(1, 250).Draw(t, "count"), rapid.SampledFrom([]int{1, 100, 510, 511, 4096, 4097, 9000}).Draw(t, "size")
		case "lib":
			l := genOp(t, expand([]weighted{{"put", 3}, {"embed", 3}, {"pwo", 3}, {"del", 1}, {"delr", 1}, {"gc", 1}, {"side", 1}}), ids, Geom{J: 4, D: 6}, 6)
			op.Lib = &l
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func init() {
	register(&PBT[C19Case]{
		Id:       "C19",
		RuleText: "a case counts as non-trivial if it made at least 3 calls after creating the store and stored at least one object",
		Assume: []string{
			"values passed as arguments have no NUL bytes and do not start with @ (which names a file)",
			"stores of up to 80 MiB when created; grown data areas are sparse",
			"the word \"close\" the library prints when it closes a store is not part of the answer",
		},
		Gen:      genC19,
		Exec:     execC19,
		Quick:    Budget{Cases: 1500, Seconds: 60},
		Thorough: Budget{Cases: 20000, Seconds: 600},
	})
}

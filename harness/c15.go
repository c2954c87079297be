package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/pkg/errors"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
	"pgregory.net/rapid"
)

// ConcCase is a store, a sequential prefix and the operations of several goroutines.
type ConcCase struct {
	G       Geom
	IDs     []uint64
	Setup   []Op
	Threads [][]Op
	Delay   int  // 0: none; otherwise the largest delay at device operations, in microseconds
	Jitter  int  // the same between the operations of a goroutine
	Region  bool `json:",omitempty"` // only a data region, no store
}

const concMaxBlocks = 3

// cObj is an object of the sequential specification.
type cObj struct {
	There bool
	Embed bool
	Data  string
}

type cState struct {
	Closed bool
	O      [6]cObj
}

// cIn is one operation of a history, cOut its answer.
type cIn struct {
	Op   Op
	Slot int
	Data string
	IDs  []uint64 // ids by slot
}

type cOut struct {
	Err  string // "", "invalid", "jfull", "full", "closed", "other: ..."
	Flag bool
	N    int
	Data string
	IDs  []uint64

	State *cState // what a snapshot contains
}

func errKind(err error) string {
	if err == nil {
		return ""
	}
	switch errors.Cause(err) {
	case internalerror.InvalidInput:
		return "invalid"
	case internalerror.JournalStorageFull:
		return "jfull"
	case internalerror.StorageFull:
		return "full"
	case internalerror.StorageClosed:
		return "closed"
	}
	return "other: " + err.Error()
}

func slotOf(ids []uint64, id uint64) int {
	for i, x := range ids {
		if x == id {
			return i
		}
	}
	return -1
}

// concApply does one operation on the store. recorded is false for operations that have no answer.
func concApply(st *storage.Storage, in cIn) (out cOut, recorded bool) {
	op := in.Op
	id := lid(op.ID)
	recorded = true
	switch op.K {
	case "put":
		ok, err := st.Put(id, mkLump([]byte(in.Data), op.Mis))
		out.Flag, out.Err = ok, errKind(err)
	case "embed":
		arg := []byte(in.Data)
		ok, err := st.PutEmbed(id, arg)
		out.Flag, out.Err = ok, errKind(err)
		for i := range arg {
			arg[i] ^= 0x5a
		}
	case "pwo":
		out.Err = errKind(st.PutWithOffset(id, mkLump([]byte(in.Data), op.Mis), op.Off, op.Len))
	case "del":
		ok, n, err := st.Delete(id)
		out.Flag, out.N, out.Err = ok, int(n), errKind(err)
	case "delr":
		out.Err = errKind(st.DeleteRange(id, lid(op.End), true))
	case "get":
		b, err := st.Get(id)
		out.Data, out.Err = string(b), errKind(err)
	case "gwo":
		b, err := st.GetWithOffset(id, op.Off, op.Len)
		out.Data, out.Err = string(b), errKind(err)
	case "gsz":
		n, err := st.GetSize(id)
		out.N, out.Err = int(n), errKind(err)
	case "gsd":
		n, err := st.GetSizeOnDisk(id)
		out.N, out.Err = int(n), errKind(err)
	case "rec":
		p, err := st.GetRecord(id)
		out.Err = errKind(err)
		if err == nil {
			out.N = int(p.Len)
		}
	case "list":
		for _, x := range st.List() {
			out.IDs = append(out.IDs, x.U64())
		}
	case "lrange":
		for _, x := range st.ListRange(id, lid(op.End), uint64(op.N)) {
			out.IDs = append(out.IDs, x.U64())
		}
	case "min":
		x, ok := st.MinId()
		out.Flag = ok
		if ok {
			out.IDs = []uint64{x.U64()}
		}
	case "max":
		x, ok := st.MaxId()
		out.Flag = ok
		if ok {
			out.IDs = []uint64{x.U64()}
		}
	case "first":
		x, err := st.First(id)
		out.Err = errKind(err)
		if err == nil {
			out.IDs = []uint64{x.U64()}
		}
	case "empty":
		x, ok := st.GenerateEmptyId()
		out.Flag = ok
		if ok {
			out.IDs = []uint64{x.U64()}
		}
	case "close":
		st.Close()
	case "reopen": // only in the sequential end of a history
	case "sync":
		st.Sync()
		recorded = false
	case "flush":
		st.Flush()
		recorded = false
	case "side":
		st.RunSideJobOnce(op.N)
		recorded = false
	case "gc":
		st.JournalGC()
		recorded = false
	case "usage":
		u := st.Usage()
		recorded = false
		if u.FileCounts > uint64(len(in.IDs)) || u.DataFreeBytes > u.DataCapacity || u.MaxSegmentSize > u.DataCapacity || u.JournalUsageBytes > u.JournalCapacity {
			out.Err = fmt.Sprintf("other: Usage says %+v with at most %d objects", u, len(in.IDs))
			recorded = true
		}
	case "alloc":
		st.GetAllocationStatus()
		recorded = false
	case "jsnap":
		st.JournalSnapshot()
		recorded = false
	default:
		harnessFail(fmt.Errorf("unknown op %q", op.K))
	}
	return
}

func sameIDs(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// presentIDs lists the ids of the state in [from, to), ascending.
func presentIDs(s *cState, ids []uint64, from, to uint64, all bool) []uint64 {
	var out []uint64
	for i, id := range ids {
		if s.O[i].There && (all || id >= from && id < to) {
			out = append(out, id)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// concStep is the sequential specification: may the operation give this answer in this state, and what is the
// state after it.
func concStep(s cState, in cIn, out cOut) (bool, cState) {
	op := in.Op
	if op.K == "close" {
		s.Closed = true
		return true, s
	}
	if op.K == "reopen" {
		s.Closed = false
		return true, s
	}
	if op.K == "snap" {
		return !s.Closed && s.O == out.State.O, s
	}
	if strings.HasPrefix(out.Err, "other") {
		// only First and GetRecord answer with errors of their own
		if op.K != "first" && op.K != "rec" {
			return false, s
		}
	}
	switch op.K { // answers without an error value
	case "list":
		if s.Closed {
			return len(out.IDs) == 0, s
		}
		return sameIDs(out.IDs, presentIDs(&s, in.IDs, 0, 0, true)), s
	case "lrange":
		if s.Closed {
			return len(out.IDs) == 0, s
		}
		want := presentIDs(&s, in.IDs, op.ID, op.End, false)
		if len(want) > op.N {
			want = want[:op.N]
		}
		return sameIDs(out.IDs, want), s
	case "min", "max":
		want := presentIDs(&s, in.IDs, 0, 0, true)
		if s.Closed || len(want) == 0 {
			return !out.Flag, s
		}
		if !out.Flag {
			return false, s
		}
		if op.K == "min" {
			return out.IDs[0] == want[0], s
		}
		return out.IDs[0] == want[len(want)-1], s
	case "empty":
		if s.Closed {
			return !out.Flag, s
		}
		if !out.Flag {
			return false, s
		}
		i := slotOf(in.IDs, out.IDs[0])
		return i < 0 || !s.O[i].There, s
	}
	if s.Closed {
		return out.Err == "closed", s
	}
	if out.Err == "closed" {
		return false, s
	}
	if op.K == "first" {
		all := presentIDs(&s, in.IDs, 0, 0, true)
		i := sort.Search(len(all), func(i int) bool { return all[i] >= op.ID })
		if i == len(all) {
			return out.Err != "", s
		}
		return out.Err == "" && out.IDs[0] == all[i], s
	}
	if op.K == "delr" {
		if out.Err == "jfull" {
			return true, s
		}
		if out.Err != "" {
			return false, s
		}
		for i, id := range in.IDs {
			if id >= op.ID && id < op.End {
				s.O[i] = cObj{}
			}
		}
		return true, s
	}
	o := &s.O[in.Slot]
	switch op.K {
	case "put", "embed":
		if out.Err == "jfull" {
			return true, s
		}
		if out.Err != "" || out.Flag != o.There {
			return false, s
		}
		*o = cObj{There: true, Embed: op.K == "embed", Data: in.Data}
		return true, s
	case "pwo":
		if o.There {
			if o.Embed || uint64(op.Off)+uint64(len(in.Data)) > uint64(len(o.Data)) {
				return out.Err == "invalid", s
			}
			if out.Err != "" {
				return false, s
			}
			o.Data = o.Data[:op.Off] + in.Data + o.Data[int(op.Off)+len(in.Data):]
			return true, s
		}
		if out.Err == "jfull" {
			return true, s
		}
		if out.Err != "" {
			return false, s
		}
		total := int(op.Off) + len(in.Data)
		if int(op.Len) > total {
			total = int(op.Len)
		}
		full := make([]byte, total)
		copy(full[op.Off:], in.Data)
		*o = cObj{There: true, Data: string(full)}
		return true, s
	case "del":
		if !o.There {
			return out.Err == "" && !out.Flag && out.N == 0, s
		}
		if out.Err == "jfull" {
			return true, s
		}
		want := len(o.Data)
		if !o.Embed {
			want = blocksFor(len(o.Data)) * blk
		}
		if out.Err != "" || !out.Flag || out.N != want {
			return false, s
		}
		*o = cObj{}
		return true, s
	case "get":
		if !o.There {
			return out.Err == "invalid", s
		}
		return out.Err == "" && out.Data == o.Data, s
	case "gsz":
		if !o.There {
			return out.Err != "", s
		}
		return out.Err == "" && out.N == len(o.Data), s
	case "gsd":
		if !o.There {
			return out.Err != "", s
		}
		want := len(o.Data)
		if !o.Embed {
			want = blocksFor(len(o.Data)) * blk
		}
		return out.Err == "" && out.N == want, s
	case "rec":
		if !o.There || o.Embed {
			return out.Err != "", s
		}
		return out.Err == "" && out.N == blocksFor(len(o.Data)), s
	case "gwo":
		if !o.There {
			return out.Err != "", s
		}
		size := len(o.Data)
		if int(op.Off) > size {
			return out.Err == "invalid", s
		}
		end := int(op.Off) + int(op.Len)
		if end > size {
			if out.Err == "invalid" { // asking for more than the reserved blocks may be refused
				limit := blocksFor(size)*blk - 2
				if o.Embed {
					limit = size
				}
				return end > limit, s
			}
			end = size
		}
		return out.Err == "" && out.Data == o.Data[op.Off:end], s
	}
	return false, s
}

func describeConc(in cIn, out cOut) string {
	op := in.Op
	a := op.K
	switch op.K {
	case "put", "embed":
		a = fmt.Sprintf("%s(%d, seed %d, %d bytes)", op.K, op.ID, op.Seed, op.Size)
	case "pwo":
		a = fmt.Sprintf("pwo(%d, seed %d, %d bytes at %d, reserve %d)", op.ID, op.Seed, op.Size, op.Off, op.Len)
	case "delr", "lrange":
		a = fmt.Sprintf("%s[%d,%d) %d", op.K, op.ID, op.End, op.N)
	case "gwo":
		a = fmt.Sprintf("gwo(%d, %d, %d)", op.ID, op.Off, op.Len)
	case "get", "gsz", "gsd", "rec", "del", "first":
		a = fmt.Sprintf("%s(%d)", op.K, op.ID)
	}
	r := out.Err
	if op.K == "snap" {
		for i, o := range out.State.O {
			if o.There {
				r += fmt.Sprintf(" %d: %d bytes, embedded %v, hash %08x;", in.IDs[i], len(o.Data), o.Embed, uint32(hashOf([]byte(o.Data))))
			}
		}
		return "snapshot ->" + r
	}
	if r == "" {
		r = fmt.Sprintf("ok flag=%v n=%d ids=%v", out.Flag, out.N, out.IDs)
		if op.K == "get" || op.K == "gwo" {
			r = fmt.Sprintf("%d bytes, hash %08x", len(out.Data), uint32(hashOf([]byte(out.Data))))
		}
	}
	if in.Data != "" {
		a += fmt.Sprintf(" hash %08x", uint32(hashOf([]byte(in.Data))))
	}
	return a + " -> " + r
}

func dumpHistory(h []porcupine.Operation) string {
	h = append([]porcupine.Operation(nil), h...)
	sort.SliceStable(h, func(i, j int) bool { return h[i].Call < h[j].Call })
	var b strings.Builder
	for _, o := range h {
		fmt.Fprintf(&b, "  g%d [%d..%d us] %s\n", o.ClientId, o.Call/1000, o.Return/1000, describeConc(o.Input.(cIn), o.Output.(cOut)))
	}
	return b.String()
}

// concModel is the specification, for one case.
var concModel = porcupine.Model{
	Init: func() interface{} { return cState{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		return func() (bool, interface{}) {
			ok, s := concStep(state.(cState), input.(cIn), output.(cOut))
			return ok, s
		}()
	},
	Equal: func(a, b interface{}) bool { return a.(cState) == b.(cState) },
}

var concRelevant = map[string]bool{"put": true, "embed": true, "pwo": true, "del": true, "delr": true}

// delayHook sleeps at device operations. It uses nothing that would order the goroutines for the race detector.
func delayHook(us int) func(io *nvm.VerifIO) error {
	if us <= 0 {
		return nil
	}
	return func(io *nvm.VerifIO) error {
		pause(us)
		return nil
	}
}

func pause(us int) {
	if us <= 0 {
		return
	}
	switch rand.IntN(8) {
	case 0, 1, 2:
		time.Sleep(time.Duration(rand.IntN(us*1000) + 1))
	case 3:
		for t := time.Now(); time.Since(t) < time.Duration(rand.IntN(us*200)+1); {
		}
	}
}

func concIn(op Op, ids []uint64) cIn {
	in := cIn{Op: op, Slot: slotOf(ids, op.ID), IDs: ids}
	switch op.K {
	case "put", "embed", "pwo":
		in.Data = string(payload(op.Seed, op.Size))
	}
	return in
}

// runThreads runs the goroutines of a case and returns the recorded operations.
func runThreads(st *storage.Storage, threads [][]cIn, jitter int, t0 time.Time) ([]porcupine.Operation, error) {
	hist := make([][]porcupine.Operation, len(threads))
	errs := make([]error, len(threads))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range threads {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			errs[g] = protect(func() error {
				for _, in := range threads[g] {
					pause(jitter)
					call := time.Since(t0)
					out, rec := concApply(st, in)
					ret := time.Since(t0)
					if rec {
						hist[g] = append(hist[g], porcupine.Operation{ClientId: g + 1, Input: in, Call: int64(call), Output: out, Return: int64(ret)})
					}
				}
				return nil
			})
		}(g)
	}
	close(start)
	wg.Wait()
	var all []porcupine.Operation
	for g := range hist {
		all = append(all, hist[g]...)
		if errs[g] != nil {
			return all, errs[g]
		}
	}
	return all, nil
}

func concOnce(r *Run, c ConcCase, dir string) error {
	if c.Region {
		return regionOnce(r, c, dir)
	}
	path := filepath.Join(dir, "store.lusf")
	st, err := storage.CreateCannylsStorage(path, c.G.capacity(), c.G.ratio())
	if err != nil {
		return violate("create-failed", "%v", err)
	}
	defer func() { st.Close() }()
	t0 := time.Now()
	var hist []porcupine.Operation
	seq := func(op Op) {
		in := concIn(op, c.IDs)
		call := time.Since(t0)
		out, rec := concApply(st, in)
		if rec {
			hist = append(hist, porcupine.Operation{ClientId: 0, Input: in, Call: int64(call), Output: out, Return: int64(time.Since(t0))})
		}
	}
	for _, op := range c.Setup {
		seq(op)
	}
	threads := make([][]cIn, len(c.Threads))
	closed := false
	for g, ops := range c.Threads {
		for _, op := range ops {
			threads[g] = append(threads[g], concIn(op, c.IDs))
			closed = closed || op.K == "close"
		}
	}
	setHook(delayHook(c.Delay))
	conc, err := runThreads(st, threads, c.Jitter, t0)
	setHook(nil)
	hist = append(hist, conc...)
	if err != nil {
		if v, ok := err.(*Violation); ok {
			v.Msg += "\nhistory up to it:\n" + dumpHistory(hist)
		}
		return err
	}
	r.Count("operations", int64(len(conc)))
	// what is there at the end, in memory and after opening it again
	reads := func() error {
		seq(Op{K: "list"})
		for _, id := range c.IDs {
			seq(Op{K: "get", ID: id})
			seq(Op{K: "gsz", ID: id})
			seq(Op{K: "rec", ID: id})
		}
		if err := concSpace(st, c); err != nil {
			v := err.(*Violation)
			v.Msg += "\n" + dumpHistory(hist)
			return v
		}
		return nil
	}
	if closed {
		r.Label("closed-under-load")
	} else {
		if err := reads(); err != nil {
			return err
		}
		seq(Op{K: "close"})
	}
	st2, err := openBounded(path, c.G.capacity())
	if err != nil {
		v := err.(*Violation)
		v.Msg += "\n" + dumpHistory(hist)
		return v
	}
	st = st2
	seq(Op{K: "reopen"})
	if err := reads(); err != nil {
		return err
	}
	for _, o := range hist {
		if o.Output.(cOut).Err == "full" {
			return violate("false-full", "an operation was refused as full although most of the data area is free\n%s", dumpHistory(hist))
		}
		if o.Output.(cOut).Err == "jfull" {
			r.Label("journal-full")
		}
	}
	switch porcupine.CheckOperationsTimeout(concModel, hist, 8*time.Second) {
	case porcupine.Illegal:
		return violate("not-linearizable", "no sequential order of the operations gives these answers:\n%s", dumpHistory(hist))
	case porcupine.Unknown:
		r.Label("undecided-in-time")
	}
	// interesting if two goroutines overlapped on one id and one of them wrote it
	n := 0
	for i := range conc {
		for j := range conc {
			a, b := conc[i], conc[j]
			ai, bi := a.Input.(cIn), b.Input.(cIn)
			if a.ClientId < b.ClientId && a.Call < b.Return && b.Call < a.Return && (concRelevant[ai.Op.K] || concRelevant[bi.Op.K]) &&
				(ai.Slot == bi.Slot || ai.Op.K == "delr" || bi.Op.K == "delr" || ai.Op.K == "close" || bi.Op.K == "close") {
				n++
			}
		}
	}
	r.Count("overlapping conflicting pairs", int64(n))
	if n > 0 {
		r.NonTrivial()
	}
	for _, o := range conc {
		if e := o.Output.(cOut).Err; e == "" || e == "invalid" {
			r.Label("op-" + o.Input.(cIn).Op.K)
		}
	}
	return nil
}

// concSpace checks that the space accounting agrees with what is there.
func concSpace(st *storage.Storage, c ConcCase) error {
	type iv struct{ s, e, id uint64 }
	var used []iv
	blocks := uint64(0)
	ids := st.List()
	for _, id := range ids {
		if p, err := st.GetRecord(id); err == nil {
			used = append(used, iv{p.Start.AsU64(), p.End(), id.U64()})
			blocks += uint64(p.Len)
		}
	}
	sort.Slice(used, func(i, j int) bool { return used[i].s < used[j].s })
	for i := 1; i < len(used); i++ {
		if used[i].s < used[i-1].e {
			return violate("overlap", "ids %d and %d share blocks", used[i-1].id, used[i].id)
		}
	}
	u := st.Usage()
	if u.FileCounts != uint64(len(ids)) {
		return violate("file-count", "Usage reports %d objects, List has %d", u.FileCounts, len(ids))
	}
	if want := (uint64(c.G.D) - blocks) * blk; u.DataFreeBytes != want {
		return violate("free-space", "Usage reports %d free bytes, the objects leave %d", u.DataFreeBytes, want)
	}
	return nil
}

// repeat runs a case whose outcome depends on the schedule several times when a failure is being looked for.
func repeat(r *Run, once func(dir string) error) error {
	reps, limit := 1, time.Duration(0)
	if r.Shrinking {
		reps, limit = 40, 700*time.Millisecond
	}
	if r.Replaying {
		reps, limit = 2000, 6*time.Second
		if quietReplay { // a saved case that is run before the search
			limit = time.Second
		}
	}
	t := time.Now()
	for i := 0; i < reps; i++ {
		dir := filepath.Join(r.Dir, fmt.Sprint(i))
		mustMkdir(dir)
		err := once(dir)
		mustRemove(dir)
		if err != nil {
			return err
		}
		if time.Since(t) > limit {
			break
		}
	}
	return nil
}

var concIDSets = [][]uint64{{1, 2, 3, 4}, {0, 1, 2, math.MaxUint64}, {5, 1 << 63, 1<<63 + 1, 255}, {1, 2}, {7}, {1, 2, 3, 4, 5, 6}}

func genConcOp(t *rapid.T, kinds []string, ids []uint64, seed *int) Op {
	op := Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), ID: rapid.SampledFrom(ids).Draw(t, "id")}
	fresh := func() int { *seed++; return 9 * *seed } // every payload has contents of its own
	size := func() int {
		switch rapid.IntRange(0, 5).Draw(t, "sk") {
		case 0:
			return rapid.IntRange(0, 20).Draw(t, "s")
		case 1:
			return rapid.SampledFrom([]int{509, 510, 511, 1021, 1022, 1023, 1534}).Draw(t, "s")
		}
		return rapid.IntRange(0, concMaxBlocks*blk-2).Draw(t, "s")
	}
	switch op.K {
	case "put":
		op.Seed, op.Size, op.Mis = fresh(), size(), genMis(t)
	case "embed":
		op.Seed, op.Size = fresh(), rapid.IntRange(0, 200).Draw(t, "s")
	case "pwo":
		op.Seed, op.Size = fresh(), size()
		if op.Size > 900 {
			op.Size /= 2
		}
		op.Off = uint32(rapid.IntRange(0, concMaxBlocks*blk-2-op.Size).Draw(t, "off"))
		if rapid.Bool().Draw(t, "res") {
			op.Len = uint32(size())
		}
	case "gwo":
		op.Off, op.Len = uint32(size()), uint32(size())
		if rapid.Bool().Draw(t, "low") {
			op.Off /= 4
		}
	case "delr", "lrange":
		op.End = rapid.SampledFrom(ids).Draw(t, "end")
		if rapid.Bool().Draw(t, "incl") {
			op.End++
		}
		if op.ID > op.End {
			op.ID, op.End = op.End, op.ID
		}
		op.N = rapid.IntRange(0, 5).Draw(t, "n")
	case "side":
		op.N = rapid.IntRange(1, 20).Draw(t, "n")
	}
	if slotOf(ids, op.ID) < 0 && op.K != "delr" && op.K != "lrange" {
		op.ID = ids[0]
	}
	return op
}

var concKinds = expand([]weighted{{"put", 14}, {"embed", 8}, {"pwo", 10}, {"del", 8}, {"delr", 3}, {"get", 14}, {"gsz", 4}, {"gsd", 2}, {"gwo", 6},
	{"rec", 2}, {"list", 2}, {"lrange", 2}, {"min", 1}, {"max", 1}, {"first", 2}, {"empty", 2}, {"sync", 3}, {"flush", 1}, {"side", 3}, {"gc", 3},
	{"usage", 2}, {"alloc", 1}, {"jsnap", 1}})

// flavours concentrate on what conflicts in particular ways
var concFlavours = [][]string{
	concKinds, concKinds,
	expand([]weighted{{"put", 6}, {"get", 8}, {"del", 3}, {"gwo", 3}, {"gsz", 2}}),                            // freed blocks under readers
	expand([]weighted{{"pwo", 8}, {"get", 5}, {"gwo", 4}, {"put", 3}, {"del", 2}, {"rec", 1}}),                // offset writes
	expand([]weighted{{"embed", 8}, {"get", 8}, {"gc", 3}, {"side", 4}, {"sync", 2}, {"del", 2}, {"put", 3}}), // journal moving under readers
	expand([]weighted{{"put", 4}, {"del", 3}, {"delr", 3}, {"list", 4}, {"lrange", 3}, {"first", 3}, {"min", 2}, {"max", 2}, {"empty", 2}}),
	expand([]weighted{{"usage", 3}, {"alloc", 3}, {"jsnap", 3}, {"put", 5}, {"del", 4}, {"embed", 3}, {"gc", 2}, {"get", 3}}),
}

func genConc(t *rapid.T, tier string) ConcCase {
	c := ConcCase{G: Geom{J: rapid.SampledFrom([]int{3, 4, 6, 8, 12, 24, 64}).Draw(t, "J"), D: 220}}
	c.IDs = rapid.SampledFrom(concIDSets).Draw(t, "ids")
	seed := 0
	c.Region = rapid.IntRange(0, 11).Draw(t, "region") == 11
	if c.Region {
		c.G.D = rapid.SampledFrom([]int{4, 12, 40, 220}).Draw(t, "D")
	}
	kinds := rapid.SampledFrom(concFlavours).Draw(t, "flavour")
	n := rapid.IntRange(0, 6).Draw(t, "nsetup")
	if c.Region {
		n = 0
		kinds = expand([]weighted{{"put", 5}, {"get", 3}, {"del", 3}, {"pwo", 2}})
	}
	setup := expand([]weighted{{"put", 4}, {"embed", 2}, {"del", 1}, {"pwo", 1}, {"sync", 1}})
	for i := 0; i < n; i++ {
		c.Setup = append(c.Setup, genConcOp(t, setup, c.IDs, &seed))
	}
	k := rapid.IntRange(2, 5).Draw(t, "threads")
	most := 12
	if k > 3 {
		most = 8
	}
	for g := 0; g < k; g++ {
		var ops []Op
		m := rapid.IntRange(1, most).Draw(t, "nops")
		for i := 0; i < m; i++ {
			ops = append(ops, genConcOp(t, kinds, c.IDs, &seed))
		}
		c.Threads = append(c.Threads, ops)
	}
	if !c.Region && rapid.IntRange(0, 4).Draw(t, "close?") == 0 {
		g := rapid.IntRange(0, k-1).Draw(t, "closer")
		at := rapid.IntRange(0, len(c.Threads[g])).Draw(t, "closeat")
		ops := c.Threads[g]
		c.Threads[g] = append(append(append([]Op(nil), ops[:at]...), Op{K: "close"}), ops[at:]...)
	}
	c.Delay = rapid.SampledFrom([]int{0, 20, 60, 200}).Draw(t, "delay")
	c.Jitter = rapid.SampledFrom([]int{0, 10, 50, 150}).Draw(t, "jitter")
	return c
}

func init() {
	register(&PBT[ConcCase]{
		Id:         "C15",
		Concurrent: true,
		RuleText: "a case counts as non-trivial if two goroutines had operations in flight at the same time on the same id (or one on a range or closing the store) " +
			"and at least one of them wrote; for a data region driven on its own, if two goroutines ran at the same time",
		Assume: []string{
			"schedules are sampled: delays at device operations and between operations, not enumerated",
			"at most 5 goroutines, 6 ids and 13 operations per goroutine; the data area is never full (a Put that must first delete what it replaces is two steps)",
			"a journal-full answer is accepted as an operation without effect",
		},
		Gen: genConc,
		Exec: func(r *Run, c ConcCase) error {
			return repeat(r, func(dir string) error { return concOnce(r, c, dir) })
		},
		Quick:    Budget{Cases: 6000, Seconds: 75},
		Thorough: Budget{Cases: 100000, Seconds: 600},
	})
}

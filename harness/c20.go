package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"mime/multipart"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
	"pgregory.net/rapid"
)

// SrvReq is one request: put, auto (upload without an id), get, usage, alloc, metrics, bad.
type SrvReq struct {
	K     string
	ID    uint64 `json:",omitempty"`
	Size  int    `json:",omitempty"`
	Seed  int    `json:",omitempty"`
	N     int    `json:",omitempty"`
	Delay int    `json:",omitempty"` // microseconds after the start of the group
}

// SrvOp is a step of a case:
//
//	burst: the requests of Reqs all at once; backup: the same while a backup is made; check: read everything back;
//	random: fetch-and-delete of the smallest id; snap: take a snapshot; restart: end the server and start it again; idle: wait for the side job
//
// A burst, backup or restart may end the server: by kill -9 after Acks answered uploads or after Us microseconds, or (Stop) by SIGINT.
type SrvOp struct {
	K    string
	Reqs []SrvReq `json:",omitempty"`
	Kill bool     `json:",omitempty"`
	Stop bool     `json:",omitempty"`
	Acks int      `json:",omitempty"`
	Us   int      `json:",omitempty"`
	Look bool     `json:",omitempty"` // after the server has ended, look at the store through the library
}

// C20Case is a store and what clients do with its server.
type C20Case struct {
	G     Geom
	Roomy bool
	Ops   []SrvOp
	Kill  bool // how the last server ends
}

// write is one change of one id that was asked for.
type write struct {
	start, end time.Duration
	done       bool // acknowledged
	soft       bool // acknowledged without a promise that it survives a kill (fetch-and-delete)
	data       []byte
	there      bool
	auto       bool
	put        bool // an upload to a given id
}

const never = time.Duration(math.MaxInt64)

type server struct {
	r      *Run
	c      C20Case
	dir    string
	path   string
	bin    string
	t0     time.Time
	cmd    *exec.Cmd
	exited chan error
	log    string
	life   int
	client *http.Client

	mu    sync.Mutex
	hist  map[uint64][]*write
	autos []*write // uploads without an id that have not been told theirs
	lastS int64    // second the last backup was asked for

	snapS, snapE time.Duration // when the existing snapshot was made
	snap         bool
}

func (s *server) now() time.Duration { return time.Since(s.t0) }

func bringLoopbackUp() error {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(fd)
	var ifr [40]byte
	copy(ifr[:], "lo")
	*(*uint16)(unsafe.Pointer(&ifr[16])) = syscall.IFF_UP | syscall.IFF_RUNNING
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&ifr))); e != 0 {
		return e
	}
	return nil
}

var loopOnce sync.Once

// ownPort makes sure that nobody else uses the server's fixed port during the case.
func ownPort() (release func()) {
	if os.Getenv("VERIF_NET") == "own" {
		var err error
		loopOnce.Do(func() { err = bringLoopbackUp() })
		if err != nil {
			harnessFail(err)
		}
		return func() {}
	}
	f, err := os.OpenFile(filepath.Join(os.TempDir(), "vh-port-8081.lock"), os.O_CREATE|os.O_RDWR, 0666)
	if err != nil {
		harnessFail(err)
	}
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
		harnessFail(err)
	}
	return func() { f.Close() }
}

const srvAddr = "127.0.0.1:8081"

// start starts the server and waits until it listens.
func (s *server) start() error {
	s.life++
	s.log = filepath.Join(s.dir, fmt.Sprintf("log%d", s.life))
	f, err := os.Create(s.log)
	if err != nil {
		harnessFail(err)
	}
	defer f.Close()
	cmd := exec.Command(filepath.Join(s.bin, "readup"), "--storage", s.path)
	cmd.Dir = s.dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0", "GIN_MODE=release", "GOMAXPROCS=4", "GOTRACEBACK=all")
	cmd.Stdout, cmd.Stderr = f, f
	if err := cmd.Start(); err != nil {
		harnessFail(err)
	}
	s.cmd, s.exited = cmd, make(chan error, 1)
	ex := s.exited
	go func() { ex <- cmd.Wait() }()
	for t := time.Now(); ; {
		c, err := net.DialTimeout("tcp", srvAddr, time.Second)
		if err == nil {
			c.Close()
			break
		}
		select {
		case <-s.exited:
			s.cmd = nil
			return violate("server-start", "the server does not start: %s", s.logTail())
		default:
		}
		if time.Since(t) > 60*time.Second {
			return violate("server-start", "the server does not listen after 60 s: %s", s.logTail())
		}
		time.Sleep(2 * time.Millisecond)
	}
	s.r.Count("server_starts", 1)
	return nil
}

func (s *server) logTail() string {
	b, _ := os.ReadFile(s.log)
	if len(b) > 1500 {
		b = b[len(b)-1500:]
	}
	return string(b)
}

// inspectLog looks for crashes and race reports.
func (s *server) inspectLog() error {
	b, _ := os.ReadFile(s.log)
	l := string(b)
	if v := raceViolation(l); v != nil {
		return v
	}
	for _, m := range []string{"\npanic: ", "fatal error: ", "panic recovered:"} {
		if i := strings.Index("\n"+l, m); i >= 0 {
			l = ("\n" + l)[i:]
			if len(l) > 3000 {
				l = l[:3000]
			}
			return violate("server-crash", "%s", l)
		}
	}
	return nil
}

// settle notes that the server is gone: what it had not answered has happened by now or never will.
func (s *server) settle(at time.Duration, killed bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var lastAck time.Duration = -1
	for _, ws := range s.hist {
		for _, w := range ws {
			if w.done && !w.soft && w.start > lastAck {
				lastAck = w.start
			}
		}
	}
	for _, w := range s.autos {
		if w.end == never {
			w.end = at
		}
	}
	for _, ws := range s.hist {
		for _, w := range ws {
			if w.end == never {
				w.end = at
			}
			if w.soft && w.done && killed && lastAck <= w.end {
				w.done = false
				w.end = at
			}
			w.soft = false
		}
	}
}

func (s *server) kill() error {
	if s.cmd == nil {
		return nil
	}
	s.cmd.Process.Kill()
	<-s.exited
	s.cmd = nil
	s.settle(s.now(), true)
	s.client.CloseIdleConnections()
	return s.inspectLog()
}

// stop ends the server with SIGINT.
func (s *server) stop() error {
	if s.cmd == nil {
		return nil
	}
	s.cmd.Process.Signal(syscall.SIGINT)
	var err error
	select {
	case err = <-s.exited:
	case <-time.After(60 * time.Second):
		dump := s.stacks()
		s.kill()
		return violate("server-stop", "the server does not end 60 s after SIGINT: %s\n%s", s.logTail(), dump)
	}
	s.cmd = nil
	// an interrupt that comes before the server handles interrupts just kills it
	ee, ok := err.(*exec.ExitError)
	killed := ok && ee.Sys().(syscall.WaitStatus).Signaled() && ee.Sys().(syscall.WaitStatus).Signal() == syscall.SIGINT
	s.settle(s.now(), killed)
	s.client.CloseIdleConnections()
	if err := s.inspectLog(); err != nil {
		return err
	}
	if err != nil && !killed {
		return violate("server-stop", "after SIGINT the server ended with %v: %s", err, s.logTail())
	}
	return nil
}

func (s *server) stacks() string {
	c := &http.Client{Timeout: 3 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	resp, err := c.Get("http://" + srvAddr + "/debug/pprof/goroutine?debug=1")
	if err != nil {
		return err.Error()
	}
	defer resp.Body.Close()
	b, _ := io.ReadAll(resp.Body)
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

type answer struct {
	code       int
	body       []byte
	err        error
	start, end time.Duration
}

func (s *server) do(method, path, ctype string, body io.Reader) (a answer) {
	req, err := http.NewRequest(method, "http://"+srvAddr+path, body)
	if err != nil {
		harnessFail(err)
	}
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	a.start = s.now()
	resp, err := s.client.Do(req)
	if err != nil {
		a.err, a.end = err, s.now()
		return
	}
	defer resp.Body.Close()
	a.code = resp.StatusCode
	a.body, a.err = io.ReadAll(resp.Body)
	a.end = s.now()
	return
}

func isTimeout(err error) bool {
	t, ok := err.(interface{ Timeout() bool })
	return ok && t.Timeout()
}

// answered checks that a request got an answer while the server was meant to be running.
func (s *server) answered(a answer, what string, ending bool) error {
	if a.err == nil {
		return nil
	}
	if isTimeout(a.err) {
		return violate("no-answer", "%s got no answer in 60 s: %v\n%s", what, a.err, s.stacks())
	}
	if ending {
		return nil
	}
	return violate("no-answer", "%s got no answer: %v; log: %s", what, a.err, s.logTail())
}

func form(data []byte, field string) (string, *bytes.Buffer) {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	p, _ := w.CreateFormFile(field, "x.bin")
	p.Write(data)
	w.Close()
	return w.FormDataContentType(), &b
}

// superseded is the latest moment at which w can still be what id holds.
func (s *server) superseded(id uint64, w *write) time.Duration {
	t := never
	for _, q := range s.hist[id] {
		if q.done && q.start > w.end && q.end < t {
			t = q.end
		}
	}
	return t
}

func (s *server) writes(id uint64) []*write {
	if s.hist[id] == nil {
		s.hist[id] = []*write{{start: -2, end: -1, done: true}}
	}
	return s.hist[id]
}

// possible says whether id can have held the given contents at some moment between from and to.
func (s *server) possible(id uint64, there bool, data []byte, from, to time.Duration) bool {
	for _, w := range s.writes(id) {
		if w.there == there && bytes.Equal(w.data, data) && w.start <= to && s.superseded(id, w) >= from {
			return true
		}
		// in a store that may be full an upload removes the old object before it stores the new one
		if !there && w.put && !s.c.Roomy && w.start <= to && (w.end >= from || !w.done && s.superseded(id, w) >= from) {
			return true
		}
	}
	for _, w := range s.autos {
		if there && w.there && bytes.Equal(w.data, data) && w.start <= to && s.superseded(id, w) >= from {
			return true
		}
	}
	return false
}

func (s *server) describe(id uint64) string {
	var out []string
	for _, w := range s.writes(id) {
		e := fmt.Sprint(w.end)
		if w.end == never {
			e = "?"
		}
		out = append(out, fmt.Sprintf("[%v..%s acknowledged=%v exists=%v %d bytes]", w.start, e, w.done, w.there, len(w.data)))
	}
	return strings.Join(out, " ")
}

// wrong explains a reading that no order of the requests explains.
func (s *server) wrong(class string, id uint64, there bool, got []byte, from, to time.Duration) error {
	g := "is absent"
	if there {
		g = fmt.Sprintf("has %d bytes (%s)", len(got), shortHex(got))
		for _, w := range s.writes(id) {
			if w.there && len(w.data) == len(got) {
				g += "; " + diffBytes(got, w.data)
			}
		}
	}
	return violate(class, "object %d %s between %v and %v; the writes were %s", id, g, from, to, s.describe(id))
}

func shortHex(b []byte) string {
	if len(b) > 16 {
		b = b[:16]
	}
	return fmt.Sprintf("%x", b)
}

// request runs one request and checks its answer.
func (s *server) request(q SrvReq, ending bool) (acked bool, err error) {
	switch q.K {
	case "put", "auto":
		data := payload(q.Seed, q.Size)
		path := "/put/"
		w := &write{end: never, data: data, there: true, put: q.K == "put"}
		if q.K == "put" {
			path += fmt.Sprint(q.ID)
			s.mu.Lock()
			s.writes(q.ID)
			w.start = s.now()
			s.hist[q.ID] = append(s.hist[q.ID], w)
			s.mu.Unlock()
		} else {
			s.mu.Lock()
			w.start, w.auto = s.now(), true
			s.autos = append(s.autos, w)
			s.mu.Unlock()
		}
		ct, body := form(data, "file")
		a := s.do("POST", path, ct, body)
		what := fmt.Sprintf("the upload of %d bytes to %s", q.Size, path)
		if err := s.answered(a, what, ending); err != nil {
			return false, err
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		if a.err != nil {
			return false, nil
		}
		if a.code != 200 {
			if a.code < 400 {
				return false, violate("upload-status", "%s was answered with %d %.200q", what, a.code, a.body)
			}
			if s.c.Roomy && !ending {
				return false, violate("upload-refused", "%s was refused although there is room: %d %.200q", what, a.code, a.body)
			}
			s.r.Count("uploads_refused", 1)
			// it may have made room in vain
			w.end, w.there, w.data = a.end, false, nil
			return false, nil
		}
		m := regexp.MustCompile(`^The ID is (\d+)\n$`).FindSubmatch(a.body)
		if m == nil {
			return false, violate("upload-status", "%s was answered with %.200q", what, a.body)
		}
		id, perr := strconv.ParseUint(string(m[1]), 10, 64)
		if perr != nil || q.K == "put" && id != q.ID {
			return false, violate("wrong-answer", "%s was answered with %.200q", what, a.body)
		}
		w.end, w.done = a.end, true
		s.r.Count("uploads_acknowledged", 1)
		if q.K == "auto" {
			if !s.possible(id, false, nil, w.start, w.end) {
				return true, violate("auto-id", "%s got id %d, which existed: %s", what, id, s.describe(id))
			}
			for _, o := range s.writes(id) {
				if o.auto && o.done && o.end > w.start && o.start < w.end {
					return true, violate("auto-id", "two concurrent uploads got the id %d", id)
				}
			}
			s.hist[id] = append(s.hist[id], w)
			for i, o := range s.autos {
				if o == w {
					s.autos = append(s.autos[:i:i], s.autos[i+1:]...)
					break
				}
			}
		}
		return true, nil
	case "get":
		return false, s.get(q.ID, ending)
	case "usage", "alloc", "metrics":
		path := map[string]string{"usage": "/usage", "alloc": "/getalloc/", "metrics": "/metrics"}[q.K]
		a := s.do("GET", path, "", nil)
		if err := s.answered(a, path, ending); err != nil {
			return false, err
		}
		if a.err == nil && a.code != 200 {
			return false, violate("status", "GET %s was answered with %d %.200q", path, a.code, a.body)
		}
	case "bad":
		return false, s.bad(q, ending)
	default:
		harnessFail(fmt.Errorf("unknown request %q", q.K))
	}
	return false, nil
}

// get downloads one object.
func (s *server) get(id uint64, ending bool) error {
	a := s.do("GET", fmt.Sprintf("/get/%d", id), "", nil)
	if err := s.answered(a, fmt.Sprintf("the download of %d", id), ending); err != nil {
		return err
	}
	if a.err != nil {
		return nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if a.code != 200 && a.code < 400 {
		return violate("status", "the download of %d was answered with %d %.200q", id, a.code, a.body)
	}
	there := a.code == 200
	var got []byte
	if there {
		got = a.body
	}
	if !s.possible(id, there, got, a.start, a.end) {
		return s.wrong("download", id, there, got, a.start, a.end)
	}
	s.r.Count("downloads_checked", 1)
	return nil
}

// bad makes a request that must be refused.
func (s *server) bad(q SrvReq, ending bool) error {
	type br struct {
		method, path, ct string
		body             io.Reader
	}
	good := func(field string, size int) (string, io.Reader) {
		ct, b := form(payload(q.Seed, size), field)
		return ct, b
	}
	var b br
	id := fmt.Sprint(q.ID)
	switch q.N {
	case 0, 1, 2, 3, 4, 5, 6:
		bads := []string{"abc", "-1", "18446744073709551616", id + "x", id + "/" + id, "0x10", "%20" + id}
		ct, r := good("file", 10)
		b = br{"POST", "/put/" + bads[q.N], ct, r}
	case 7:
		ct, r := good("data", 10)
		b = br{"POST", "/put/" + id, ct, r}
	case 8:
		b = br{"POST", "/put/" + id, "application/octet-stream", bytes.NewReader(payload(q.Seed, 100))}
	case 9: // the form ends early
		ct, r := form(payload(q.Seed, 3000), "file")
		b = br{"POST", "/put/" + id, ct, bytes.NewReader(r.Bytes()[:1500])}
	case 10:
		b = br{"POST", "/put/" + id, "", nil}
	case 11, 12, 13:
		b = br{"GET", "/get/" + []string{"abc", "-1", "18446744073709551616"}[q.N-11], "", nil}
	case 14:
		b = br{"POST", "/snapshot/none", "", nil}
	case 15:
		b = br{"GET", "/put/" + id, "", nil}
	case 16:
		b = br{"DELETE", "/get/" + id, "", nil}
	case 17: // the client gives up in the middle of the upload
		ct, r := form(payload(q.Seed, 5000), "file")
		c, err := net.DialTimeout("tcp", srvAddr, 10*time.Second)
		if err != nil {
			return nil
		}
		fmt.Fprintf(c, "POST /put/%s HTTP/1.1\r\nHost: x\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n", id, ct, r.Len())
		c.Write(r.Bytes()[:2500])
		c.Close()
		return nil
	case 18: // more than an object can hold
		ct, r := good("file", lump.LUMP_MAX_SIZE+1+q.Seed)
		b = br{"POST", "/put/" + id, ct, r}
	}
	a := s.do(b.method, b.path, b.ct, b.body)
	what := fmt.Sprintf("bad request %d (%s %s)", q.N, b.method, b.path)
	if err := s.answered(a, what, ending); err != nil {
		return err
	}
	if a.err != nil {
		return nil
	}
	s.r.Count("bad_requests", 1)
	if a.code < 400 {
		return violate("bad-accepted", "%s was answered with %d %.200q", what, a.code, a.body)
	}
	return nil
}

// burst runs requests concurrently; with a kill or a stop the server is gone afterwards.
func (s *server) burst(op SrvOp) error {
	ending := op.Kill || op.Stop
	acks := make(chan bool, len(op.Reqs))
	errs := make([]error, len(op.Reqs))
	var wg sync.WaitGroup
	for i, q := range op.Reqs {
		wg.Add(1)
		go func(i int, q SrvReq) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs[i] = violate("panic", "%v", x)
				}
			}()
			pause(q.Delay)
			ok, err := s.request(q, ending)
			errs[i] = err
			if ok {
				acks <- true
			}
		}(i, q)
	}
	all := make(chan bool)
	go func() { wg.Wait(); close(all) }()
	var endErr error
	if ending {
		if op.Acks > 0 {
		loop:
			for n := 0; n < op.Acks; n++ {
				select {
				case <-acks:
				case <-all:
					break loop
				}
			}
		} else {
			pause(op.Us)
		}
		if op.Stop {
			endErr = s.stop()
		} else {
			endErr = s.kill()
		}
	}
	<-all
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return endErr
}

// ids are all ids that have been named so far.
func (s *server) ids() []uint64 {
	m := map[uint64]bool{}
	for id := range s.hist {
		m[id] = true
	}
	for _, op := range s.c.Ops {
		for _, q := range op.Reqs {
			m[q.ID] = true
		}
	}
	var out []uint64
	for id := range m {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// readBack downloads everything while nothing else happens, and fixes what each id holds.
func (s *server) readBack(durable bool) (map[uint64][]byte, error) {
	held := map[uint64][]byte{}
	total := 0
	for _, id := range s.ids() {
		a := s.do("GET", fmt.Sprintf("/get/%d", id), "", nil)
		if err := s.answered(a, fmt.Sprintf("the download of %d", id), false); err != nil {
			return nil, err
		}
		there := a.code == 200
		var got []byte
		if there {
			got = a.body
			held[id] = append([]byte{}, got...)
			total += blocksFor(len(got))
		}
		if !s.possible(id, there, got, a.start, a.end) {
			return nil, s.wrong("download", id, there, got, a.start, a.end)
		}
		s.hist[id] = append(s.writes(id), &write{start: a.start, end: a.end, done: true, soft: !durable, there: there, data: got})
		s.r.Count("downloads_checked", 1)
	}
	a := s.do("GET", "/usage", "", nil)
	if err := s.answered(a, "/usage", false); err != nil {
		return nil, err
	}
	var u storage.StorageUsage
	if err := json.Unmarshal(a.body, &u); err != nil {
		return nil, violate("usage", "/usage was answered with %d %.200q", a.code, a.body)
	}
	if lost := len(s.autos); lost == 0 {
		if u.FileCounts != uint64(len(held)) {
			return nil, violate("usage", "/usage reports %d objects, there are %d", u.FileCounts, len(held))
		}
		if want := uint64(s.c.G.D-total) * blk; u.DataFreeBytes != want {
			return nil, violate("usage", "/usage reports %d free bytes, the %d objects leave %d", u.DataFreeBytes, len(held), want)
		}
	}
	if u.DataCapacity != uint64(s.c.G.D)*blk {
		return nil, violate("usage", "/usage reports a capacity of %d bytes, it is %d", u.DataCapacity, s.c.G.D*blk)
	}
	return held, nil
}

// snapshotFile says whether a snapshot exists.
func (s *server) snapshotFile() bool { return len(snapshotsIn(s.dir)) > 0 }

// look compares the store, opened through the library, with what the server's clients know.
func (s *server) look(path, class string, from, to time.Duration) error {
	st, err := openBounded(path, s.c.G.capacity())
	if err != nil {
		return wrapClass(class, err)
	}
	defer st.Close()
	listed := map[uint64]bool{}
	type reading struct {
		id    uint64
		there bool
		data  []byte
	}
	var all []reading
	for _, id := range st.List() {
		b, err := st.Get(id)
		if err != nil {
			return violate(class+"read", "object %d: %v", id.U64(), err)
		}
		listed[id.U64()] = true
		all = append(all, reading{id.U64(), true, b})
	}
	for _, id := range s.ids() {
		if !listed[id] {
			all = append(all, reading{id: id})
		}
	}
	for _, x := range all {
		if !s.possible(x.id, x.there, x.data, from, to) {
			return s.wrong(class+"contents", x.id, x.there, x.data, from, to)
		}
	}
	if from != to {
		// one moment must explain everything
		moments := []time.Duration{from}
		for _, ws := range s.hist {
			for _, w := range ws {
				if w.start > from && w.start <= to {
					moments = append(moments, w.start)
				}
			}
		}
		for _, w := range s.autos {
			if w.start > from && w.start <= to {
				moments = append(moments, w.start)
			}
		}
		found := false
		var worst error
		for _, t := range moments {
			ok := true
			for _, x := range all {
				if !s.possible(x.id, x.there, x.data, t, t) {
					ok = false
					worst = s.wrong(class+"moment", x.id, x.there, x.data, t, t)
					break
				}
			}
			found = found || ok
		}
		if !found {
			return violate(class+"moment", "no single moment between %v and %v explains the contents; for instance: %v", from, to, worst)
		}
	}
	if err := concSpace(st, ConcCase{G: s.c.G}); err != nil {
		return wrapClass(class, err)
	}
	return nil
}

// backup asks for a backup, runs the requests meanwhile and compares what the backup has.
func (s *server) backup(op SrvOp) error {
	// the file is named after the second in which it was asked for
	for time.Now().Unix() <= s.lastS {
		time.Sleep(10 * time.Millisecond)
	}
	had := s.snap
	before := map[string]bool{}
	for _, n := range namesIn(s.dir) {
		before[n] = true
	}
	var a answer
	for {
		a = s.do("POST", "/snapshot/backup", "", nil)
		if err := s.answered(a, "the backup request", false); err != nil {
			return err
		}
		if a.code != http.StatusCreated { // the one before has not quite ended
			break
		}
		if s.now() > a.start+30*time.Second {
			return violate("backup-stuck", "the server says that a backup is running although its snapshot is gone")
		}
		time.Sleep(5 * time.Millisecond)
		if time.Now().Unix() <= s.lastS {
			harnessFail(fmt.Errorf("the clock went back"))
		}
	}
	s.lastS = time.Now().Unix()
	if a.code != 200 {
		return violate("backup-refused", "the backup request was answered with %d %.200q", a.code, a.body)
	}
	if !had {
		s.snap, s.snapS, s.snapE = true, a.start, a.end
	}
	if err := s.burst(op); err != nil {
		return err
	}
	if op.Kill || op.Stop {
		s.snap = s.snapshotFile()
		s.r.Label("backup-cut-off")
		return nil
	}
	for t := time.Now(); s.snapshotFile(); {
		if time.Since(t) > 90*time.Second {
			return violate("backup-stuck", "the backup has not ended after 90 s: %s", s.logTail())
		}
		select {
		case err := <-s.exited:
			s.exited <- err
			return violate("server-crash", "the server ended during a backup: %v %s", err, s.logTail())
		default:
		}
		time.Sleep(5 * time.Millisecond)
	}
	from, to := s.snapS, s.snapE
	s.snap = false
	var files []string
	for _, n := range namesIn(s.dir) {
		if strings.HasSuffix(n, "_backup.lusf") && !before[n] {
			files = append(files, n)
		}
	}
	if len(files) != 1 {
		return violate("backup-file", "the backup left the files %q", files)
	}
	f := filepath.Join(s.dir, files[0])
	defer os.Remove(f)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.r.Count("backups_checked", 1)
	if had {
		s.r.Label("backup-of-older-snapshot")
	}
	return s.look(f, "backup-", from, to)
}

// again starts the server after it has ended, after a look at the store if wanted.
func (s *server) again(look bool) error {
	if look {
		t := s.now()
		if err := s.look(s.path, "after-end-", t, t); err != nil {
			return err
		}
	}
	if err := s.start(); err != nil {
		return err
	}
	_, err := s.readBack(true)
	return err
}

func (s *server) step(op SrvOp) error {
	switch op.K {
	case "burst":
		if err := s.burst(op); err != nil {
			return err
		}
	case "backup":
		if err := s.backup(op); err != nil {
			return err
		}
	case "check":
		_, err := s.readBack(false)
		return err
	case "random":
		held, err := s.readBack(false)
		if err != nil {
			return err
		}
		if len(s.autos) > 0 {
			return nil // some objects are unknown
		}
		a := s.do("GET", "/random", "", nil)
		if err := s.answered(a, "/random", false); err != nil {
			return err
		}
		if len(held) == 0 {
			if a.code < 400 {
				return violate("status", "/random of an empty store was answered with %d", a.code)
			}
			return nil
		}
		min := uint64(math.MaxUint64)
		for id := range held {
			if id < min {
				min = id
			}
		}
		if a.code != 200 || !bytes.Equal(a.body, held[min]) {
			return violate("download", "/random was answered with %d and %d bytes, want object %d of %d bytes: %s", a.code, len(a.body), min, len(held[min]), diffBytes(a.body, held[min]))
		}
		s.hist[min] = append(s.writes(min), &write{start: a.start, end: a.end, done: true, soft: true})
		s.r.Label("fetch-and-delete")
		return s.get(min, false)
	case "snap":
		a := s.do("POST", "/snapshot/create", "", nil)
		if err := s.answered(a, "the snapshot request", false); err != nil {
			return err
		}
		if s.snap {
			if a.code < 400 {
				return violate("status", "a second snapshot was answered with %d", a.code)
			}
			return nil
		}
		if a.code != 200 {
			return violate("snapshot-refused", "the snapshot request was answered with %d %.200q", a.code, a.body)
		}
		s.snap, s.snapS, s.snapE = true, a.start, a.end
		s.r.Label("snapshot")
		return nil
	case "idle":
		time.Sleep(3300 * time.Millisecond)
		s.r.Label("idle")
		return nil
	case "restart":
		pause(op.Us)
		var err error
		if op.Stop {
			err = s.stop()
		} else {
			err = s.kill()
		}
		if err != nil {
			return err
		}
	}
	if s.cmd == nil {
		if op.Stop {
			s.r.Label("stopped")
		} else {
			s.r.Label("killed")
		}
		return s.again(op.Look)
	}
	return nil
}

func execC20(r *Run, c C20Case) error {
	return repeat(r, func(dir string) error { return c20Once(r, c, dir) })
}

func c20Once(r *Run, c C20Case, dir string) (err error) {
	bin := os.Getenv("VERIF_BIN")
	if bin == "" {
		harnessFail(fmt.Errorf("VERIF_BIN is not set"))
	}
	defer ownPort()()
	s := &server{r: r, c: c, dir: dir, path: filepath.Join(dir, "store.lusf"), bin: bin, t0: time.Now(), hist: map[uint64][]*write{}}
	s.client = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true, DisableCompression: true}}
	st, err := storage.CreateCannylsStorage(s.path, c.G.capacity(), c.G.ratio())
	if err != nil {
		return violate("create", "%v", err)
	}
	st.Close()
	if err := s.start(); err != nil {
		return err
	}
	defer func() {
		if s.cmd != nil {
			s.cmd.Process.Kill()
			<-s.exited
		}
	}()
	for i, op := range c.Ops {
		if err := s.step(op); err != nil {
			return at(err, i)
		}
	}
	if c.Kill {
		err = s.kill()
	} else {
		err = s.stop()
	}
	if err != nil {
		return err
	}
	t := s.now()
	if err := s.look(s.path, "final-", t, t); err != nil {
		return err
	}
	acked, cut := 0, 0
	for _, ws := range s.hist {
		for _, w := range ws {
			if w.done && w.there {
				acked++
			}
		}
	}
	for _, op := range c.Ops {
		if op.K == "restart" || op.Kill || op.Stop || op.K == "backup" {
			cut++
		}
	}
	if acked > 0 && (cut > 0 || c.Kill) {
		r.NonTrivial()
	}
	return nil
}

func genC20(t *rapid.T, tier string) C20Case {
	var c C20Case
	seed := 0
	ids := rapid.SampledFrom([][]uint64{{0, 1, 2, 3}, {7}, {5, 6, 1 << 40, math.MaxUint64 - 1}, {math.MaxUint64, 0, 1}, {100, 200, 300, 400, 500, 600}}).Draw(t, "ids")
	sum, most := 0, 0
	size := func() int {
		n := 0
		switch rapid.IntRange(0, 11).Draw(t, "sk") {
		case 0:
			n = rapid.IntRange(0, 3).Draw(t, "s")
		case 1, 2:
			n = rapid.SampledFrom([]int{509, 510, 511, 1021, 1022, 1023, 4094}).Draw(t, "s")
		case 3:
			n = rapid.IntRange(0, 200000).Draw(t, "s")
		default:
			n = rapid.IntRange(0, 6000).Draw(t, "s")
		}
		sum += blocksFor(n)
		if b := blocksFor(n); b > most {
			most = b
		}
		return n
	}
	req := func(kinds []string) SrvReq {
		q := SrvReq{K: rapid.SampledFrom(kinds).Draw(t, "rk")}
		switch q.K {
		case "put", "auto":
			seed++
			q.Seed, q.Size = 9*seed, size()
		case "bad":
			q.N = rapid.IntRange(0, 17).Draw(t, "bad")
			if rapid.IntRange(0, 59).Draw(t, "huge") == 59 {
				q.N = 18
			}
			q.Seed = rapid.IntRange(0, 3).Draw(t, "bseed")
		}
		if q.K == "put" || q.K == "get" || q.K == "bad" {
			q.ID = rapid.SampledFrom(ids).Draw(t, "id")
		}
		if rapid.Bool().Draw(t, "late") {
			q.Delay = rapid.IntRange(0, 4000).Draw(t, "delay")
		}
		return q
	}
	kinds := expand([]weighted{{"put", 9}, {"auto", 4}, {"get", 4}, {"usage", 1}, {"alloc", 1}, {"metrics", 1}, {"bad", 2}})
	end := func(op *SrvOp) {
		switch rapid.IntRange(0, 5).Draw(t, "end") {
		case 0, 1, 2:
			op.Kill = true
		case 3:
			op.Stop = true
		default:
			return
		}
		if rapid.IntRange(0, 2).Draw(t, "how") > 0 {
			op.Acks = rapid.IntRange(1, 4).Draw(t, "acks")
		} else {
			op.Us = rapid.IntRange(0, 8000).Draw(t, "us")
		}
		op.Look = rapid.Bool().Draw(t, "look")
	}
	opk := expand([]weighted{{"burst", 10}, {"check", 1}, {"random", 2}, {"snap", 1}, {"backup", 3}, {"restart", 2}})
	if rapid.IntRange(0, 14).Draw(t, "slow") == 14 {
		opk = append(opk, "idle")
	}
	n := rapid.IntRange(1, 9).Draw(t, "n")
	for i := 0; i < n; i++ {
		op := SrvOp{K: rapid.SampledFrom(opk).Draw(t, "k")}
		switch op.K {
		case "burst", "backup":
			m := rapid.IntRange(1, 10).Draw(t, "m")
			if op.K == "burst" && rapid.IntRange(0, 9).Draw(t, "wide") == 9 {
				m = 30 // more than fit into the server's queue
			}
			for j := 0; j < m; j++ {
				op.Reqs = append(op.Reqs, req(kinds))
			}
			if op.K == "burst" || rapid.IntRange(0, 2).Draw(t, "cut") == 2 {
				end(&op)
			}
		case "restart":
			op.Stop = rapid.Bool().Draw(t, "stop")
			op.Us = rapid.SampledFrom([]int{0, 0, 1000, 20000}).Draw(t, "us")
			op.Look = rapid.Bool().Draw(t, "look")
		}
		c.Ops = append(c.Ops, op)
	}
	c.Kill = rapid.Bool().Draw(t, "lastkill")
	c.Roomy = rapid.IntRange(0, 3).Draw(t, "room") > 0
	if c.Roomy {
		c.G = Geom{J: rapid.SampledFrom([]int{200, 400}).Draw(t, "j"), D: sum + most + rapid.IntRange(1, 400).Draw(t, "d")}
	} else {
		c.G = Geom{J: rapid.IntRange(2, 24).Draw(t, "j"), D: rapid.IntRange(1, 60).Draw(t, "d")}
	}
	return c
}

func init() {
	register(&PBT[C20Case]{
		Id:       "C20",
		RuleText: "a case counts as non-trivial if at least one upload was acknowledged and the server was killed, stopped or made a backup",
		Assume: []string{
			"the server process is killed (kill -9) or interrupted (SIGINT); the machine does not lose power",
			"kill points and the schedules of concurrent requests are sampled",
			"fetch-and-delete (/random) carries no promise that it survives a kill before the next acknowledged upload",
			"backups are asked for in different seconds, one at a time",
		},
		Gen:        genC20,
		Exec:       execC20,
		Quick:      Budget{Cases: 400, Seconds: 60, Workers: 16},
		Thorough:   Budget{Cases: 20000, Seconds: 600, Workers: 16},
		Concurrent: true,
	})
}

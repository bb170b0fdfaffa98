package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/signintech/pdft/simhook"
)

// World is one simulated execution: tasks, clock, entropy, disk.
type World struct {
	plan    Plan
	tasks   []*task
	cur     *task
	rng     *rand.Rand
	slices  []Slice // executed
	script  []Slice // explicit
	steps   int64   // all yield points passed
	granted int64
	entN    int64
	ent     *rand.Rand
	ihash   uint64
	nswitch int
	st      *Stats
	done    chan bool
	tick    int64
}

type hangT struct{}
type crashT struct{}

type task struct {
	w       *World
	id      int
	goid    uint64
	wake    chan bool
	done    bool
	s       *session
	opSteps int64
	fs      *fsScript
	lastN   int64
}

const hangSteps = 60_000_000

// fsScript is the disk as one call of the library meets it.
type fsScript struct {
	on      bool
	n       int // file system calls so far
	faults  []Fault
	crashed bool
	arm     bool        // crash at the next call
	fds     map[int]int // open files and how they were opened
	ops     []string
	wrote   int
	paths   map[int]string
	failed  bool // a call failed that must be reported
}

// Stats is what the runs of a worker covered.
type Stats struct {
	Runs     int
	Execs    int
	Steps    int64
	SimNs    int64
	Switches int64
	Ops      map[string]int
	Faults   map[string]int
	Hist     map[uint64]bool
	Inter    map[uint64]bool
	Checked  map[string]int
	Samples  []string
	NonTriv  int
}

func newStats() *Stats {
	return &Stats{Ops: map[string]int{}, Faults: map[string]int{}, Hist: map[uint64]bool{}, Inter: map[uint64]bool{}, Checked: map[string]int{}}
}

var world *World
var scratch string
var siteHash = fnv.New64a

func initSim() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	simhook.Slow = slow
	time.SimNow = func() time.Time {
		w := world
		if w == nil {
			return time.Unix(1700000000, 0)
		}
		w.tick += 1000
		return time.Unix(0, w.plan.Clock+w.tick+w.now()*1000)
	}
	time.SimEntropy = func(b []byte) {
		if world == nil {
			return
		}
		world.entN += int64(len(b))
		world.ent.Read(b)
	}
	syscall.SimFS = simFS
	syscall.SimFSOpened = func(fd int, path string, flags int) {
		w := world
		if w == nil || w.cur == nil || w.cur.fs == nil || !w.cur.fs.on || runtime.SimGoid() != w.cur.goid || !strings.HasPrefix(path, scratch) {
			return
		}
		w.cur.fs.fds[fd] = flags
		w.cur.fs.paths[fd] = path
	}
	atomic.SimYield = func() bool {
		w := world
		if w == nil || w.cur == nil || len(w.tasks) < 2 || runtime.SimGoid() != w.cur.goid {
			return false
		}
		w.cur.opSteps += 1000
		w.reschedule(true)
		return true
	}
}

func (w *World) now() int64 { return w.granted - simhook.Count }

func slow(site int32) {
	w := world
	if w == nil || w.cur == nil || runtime.SimGoid() != w.cur.goid {
		return
	}
	t := w.cur
	t.opSteps += t.lastN
	if t.opSteps > hangSteps {
		w.grant(1000)
		t.opSteps = 0
		panic(hangT{})
	}
	w.ihash = w.ihash*1099511628211 ^ uint64(site)<<8 ^ uint64(t.id)
	w.reschedule(false)
}

func (w *World) grant(n int64) {
	if w.cur != nil {
		w.cur.lastN = n
	}
	w.granted += n - simhook.Count
	simhook.Count = n
}

// live tasks
func (w *World) live() []*task {
	var l []*task
	for _, t := range w.tasks {
		if !t.done {
			l = append(l, t)
		}
	}
	return l
}

func (w *World) pick() (*task, int64) {
	l := w.live()
	if len(l) == 0 {
		return nil, 0
	}
	if len(l) == 1 && len(w.tasks) == 1 {
		return l[0], 1 << 20
	}
	if w.plan.Slices != nil {
		for len(w.script) > 0 {
			s := w.script[0]
			w.script = w.script[1:]
			if s.T < len(w.tasks) && !w.tasks[s.T].done {
				return w.tasks[s.T], int64(s.N)
			}
		}
		return l[0], 1 << 20
	}
	t := l[w.rng.Intn(len(l))]
	m := w.plan.Mean
	if m < 1 {
		m = 50
	}
	n := int64(1 + w.rng.Intn(2*m))
	return t, n
}

// reschedule gives the turn to another task, or back.
func (w *World) reschedule(forced bool) {
	me := w.cur
	t, n := w.pick()
	if forced {
		for k := 0; k < 20 && t == me; k++ {
			t, n = w.pick()
		}
		if t == me {
			for _, o := range w.live() {
				if o != me {
					t = o
				}
			}
		}
	}
	if len(w.tasks) > 1 && len(w.slices) < 200000 {
		w.slices = append(w.slices, Slice{t.id, int(n)})
	}
	if t == me {
		w.grant(n)
		return
	}
	w.nswitch++
	w.cur = t
	w.grant(n)
	t.wake <- true
	<-me.wake
}

func (w *World) finish(me *task) {
	me.done = true
	t, n := w.pick()
	if t == nil {
		w.cur = nil
		w.done <- true
		return
	}
	if len(w.tasks) > 1 {
		w.slices = append(w.slices, Slice{t.id, int(n)})
	}
	w.cur = t
	w.grant(n)
	t.wake <- true
}

// Exec runs a plan to its end.
func Exec(p Plan, st *Stats) *World {
	w := &World{plan: p, st: st, rng: rand.New(rand.NewSource(int64(p.Sched >> 1))), script: p.Slices,
		ent: rand.New(rand.NewSource(int64(p.Entropy >> 1))), done: make(chan bool)}
	sh := newShared()
	for i := range p.Tasks {
		t := &task{w: w, id: i, wake: make(chan bool)}
		t.s = newSession(t, sh, p.Share)
		w.tasks = append(w.tasks, t)
	}
	world = w
	st.Execs++
	simhook.Count = 0
	w.granted = 0
	for _, t := range w.tasks {
		t := t
		go func() {
			<-t.wake
			t.goid = runtime.SimGoid()
			for i := range p.Tasks[t.id].Ops {
				if !t.s.step(i, p.Tasks[t.id].Ops[i]) {
					break
				}
			}
			t.s.end()
			w.finish(t)
		}()
	}
	runtime.SimSet(true, p.Map, &w.granted, &simhook.Count)
	t, n := w.pick()
	if len(w.tasks) > 1 {
		w.slices = append(w.slices, Slice{t.id, int(n)})
	}
	w.cur = t
	w.grant(n)
	t.wake <- true
	<-w.done
	runtime.SimSet(false, 0, nil, nil)
	w.steps = w.now()
	world = nil
	st.Steps += w.steps
	st.SimNs += w.steps*1000 + w.tick
	st.Switches += int64(w.nswitch)
	if len(w.tasks) > 1 {
		st.Inter[w.ihash] = true
	}
	execs++
	if execs%8 == 0 {
		var ms runtime.MemStats
		if runtime.ReadMemStats(&ms); ms.HeapAlloc > 300<<20 {
			runtime.GC()
		}
	}
	return w
}

var execs int

// ---- disk ----

func simFS(op string, fd int, path, path2 string, flags, n int) (int, error) {
	w := world
	if w == nil || w.cur == nil || w.cur.fs == nil || !w.cur.fs.on || runtime.SimGoid() != w.cur.goid {
		return -1, nil
	}
	fs := w.cur.fs
	if fd >= 0 {
		if _, ok := fs.fds[fd]; !ok {
			return -1, nil
		}
		if op == "close" {
			ro := fs.fds[fd]&(os.O_WRONLY|os.O_RDWR) == 0
			delete(fs.fds, fd)
			if ro { // closing what was only read loses nothing
				return -1, nil
			}
		}
	} else if !strings.HasPrefix(path, scratch) {
		// the code may look at the real file system (time zones), it may
		// not change it
		if flags&(os.O_WRONLY|os.O_RDWR|os.O_CREATE) != 0 || op != "open" {
			return -1, syscall.EROFS
		}
		return -1, nil
	}
	if fs.crashed {
		return -1, syscall.EIO
	}
	if fs.arm {
		fs.crashed = true
		w.st.Faults["disk crash during "+op]++
		panic(crashT{})
	}
	k := fs.n
	fs.n++
	fs.ops = append(fs.ops, op)
	for _, f := range fs.faults {
		if f.At != k {
			continue
		}
		switch f.Kind {
		case "crash":
			if op == "write" && n > 0 {
				fs.arm = true
				lim := f.N % (n + 1)
				fs.wrote += lim
				if lim == 0 {
					fs.crashed = true
					w.st.Faults["disk crash during write"]++
					panic(crashT{})
				}
				return lim, nil
			}
			fs.crashed = true
			w.st.Faults["disk crash during "+op]++
			panic(crashT{})
		case "short":
			if (op == "read" || op == "write") && n > 1 {
				w.st.Faults["disk short "+op]++
				return 1 + f.N%(n-1), nil
			}
		case "eintr":
			if op == "read" || op == "write" || op == "open" {
				w.st.Faults["disk EINTR on "+op]++
				// delivered once
				fs.faults = without(fs.faults, f)
				return -1, syscall.EINTR
			}
		case "eio":
			w.st.Faults["disk EIO on "+op]++
			fs.hit(op)
			return -1, syscall.EIO
		case "enospc":
			if op != "read" && op != "close" {
				w.st.Faults["disk ENOSPC on "+op]++
				fs.hit(op)
				return -1, syscall.ENOSPC
			}
		case "eacces":
			if op == "open" || op == "rename" {
				w.st.Faults["disk EACCES on "+op]++
				fs.hit(op)
				return -1, syscall.EACCES
			}
		}
	}
	return -1, nil
}

func (f *fsScript) hit(op string) { f.failed = true }

func without(l []Fault, f Fault) []Fault {
	var o []Fault
	for _, e := range l {
		if e != f {
			o = append(o, e)
		}
	}
	return o
}

// disk runs a call with the simulated disk; crashed: the process died in it.
func (t *task) disk(faults []Fault, f func()) (crashed, hit bool) {
	t.fs = &fsScript{on: true, faults: append([]Fault(nil), faults...), fds: map[int]int{}, paths: map[int]string{}}
	defer func() {
		fs := t.fs
		t.fs = nil
		if r := recover(); r != nil {
			if _, ok := r.(crashT); ok {
				crashed = true
				return
			}
			panic(r)
		}
		if fs.crashed {
			crashed = true
		}
		hit = fs.failed
		if !crashed && t.s != nil {
			for fd := range fs.fds {
				if l, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd)); err == nil && l == fs.paths[fd] {
					t.s.bad("leak", "%s leaves the file %s open", t.s.opk, filepath.Base(l))
				}
			}
		}
	}()
	f()
	return
}

func (t *task) path(name string) string {
	return filepath.Join(scratch, fmt.Sprintf("t%d", t.id), name)
}

func cleanScratch(ntasks int) {
	for i := 0; i < ntasks; i++ {
		d := filepath.Join(scratch, fmt.Sprintf("t%d", i))
		os.RemoveAll(d)
		os.MkdirAll(d, 0755)
	}
}

// ---- readers and writers ----

var errInjected = errors.New("injected i/o error")

// simReader delivers data in pieces, as networks and pipes do.
type simReader struct {
	b      []byte
	pos    int
	r      *rand.Rand
	faults []Fault
	st     *Stats
	hit    bool
	zeros  int
	mode   int
}

func newSimReader(b []byte, via string, chunk uint64, faults []Fault, st *Stats) io.Reader {
	if chunk == 0 && len(faults) == 0 {
		switch via {
		case "buffer":
			return bytes.NewBuffer(b)
		case "bufio":
			return bufio.NewReaderSize(bytes.NewReader(b), 16)
		case "mid": // a reader that has been read from before
			const junk = 37
			m := make([]byte, junk, junk+len(b))
			r := bytes.NewReader(append(m, b...))
			io.CopyN(io.Discard, r, junk)
			return r
		}
		return bytes.NewReader(b)
	}
	r := rand.New(rand.NewSource(int64(chunk >> 1)))
	return &simReader{b: b, r: r, faults: faults, st: st, mode: r.Intn(5)}
}

func (s *simReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch s.mode {
	case 0:
		n = 1 + s.r.Intn(64)
	case 1:
		n = 1 + s.r.Intn(4096)
	case 2:
		n = 1 + s.r.Intn(3)
		if len(s.b) > 20000 {
			n = 1 + s.r.Intn(200)
		}
	case 3:
		if s.zeros < 3 && s.r.Intn(3) == 0 {
			s.zeros++
			s.st.Faults["reader empty read"]++
			return 0, nil
		}
		s.zeros = 0
		n = 1 + s.r.Intn(512)
	}
	if n > len(p) {
		n = len(p)
	}
	for _, f := range s.faults {
		if f.At <= s.pos {
			s.hit = true
			s.st.Faults["reader "+f.Kind]++
			if f.Kind == "unexpected" {
				return 0, io.ErrUnexpectedEOF
			}
			return 0, errInjected
		}
		if s.pos+n > f.At {
			n = f.At - s.pos
			if f.Kind == "witherr" { // data and the error together
				c := copy(p[:n], s.b[s.pos:])
				s.pos += c
				s.hit = true
				s.st.Faults["reader error with data"]++
				return c, errInjected
			}
		}
	}
	if s.pos >= len(s.b) {
		return 0, io.EOF
	}
	c := copy(p[:n], s.b[s.pos:])
	if c < len(p) {
		s.st.Faults["reader short read"]++
	}
	s.pos += c
	if s.pos >= len(s.b) && s.mode%2 == 0 {
		s.st.Faults["reader EOF with data"]++
		return c, io.EOF
	}
	return c, nil
}

// simWriter fails where the plan says.
type simWriter struct {
	buf    bytes.Buffer
	faults []Fault
	st     *Stats
	hit    bool
	kept   [][]byte // what was passed, to see whether it is changed later
	copies [][]byte
}

func (s *simWriter) Write(p []byte) (int, error) {
	for _, f := range s.faults {
		if s.hit && f.Kind != "once" && f.Kind != "silent" {
			return 0, errInjected
		}
		if s.hit {
			continue
		}
		if s.buf.Len()+len(p) > f.At {
			n := f.At - s.buf.Len()
			if n < 0 {
				n = 0
			}
			s.buf.Write(p[:n])
			s.hit = true
			s.st.Faults["writer "+f.Kind]++
			switch f.Kind {
			case "full": // everything is taken, but an error is reported
				s.buf.Write(p[n:])
				return len(p), errInjected
			case "eof":
				return n, io.EOF
			case "short":
				return n, io.ErrShortWrite
			case "silent": // fewer bytes than asked, and no word about it
				return n, nil
			}
			return n, errInjected
		}
	}
	s.buf.Write(p)
	return len(p), nil
}

// sim runs pdft inside a deterministic simulator.
//
//	sim check PROP TIER     search for violations
//	sim replay FILE         run a recorded violation again
//	sim show PROP IDX       print the plan of a run
//	sim eval|worker ...     used by check
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// runs per property: quick and thorough
var budget = map[string][2]int{
	"C01": {12000, 300000}, "C02": {12000, 300000}, "C03": {12000, 300000}, "C04": {12000, 300000}, "C05": {12000, 300000},
	"C06": {6000, 150000}, "C07": {10000, 250000}, "C08": {6000, 150000}, "C09": {3200, 80000}, "C10": {3200, 80000},
	"C11": {6000, 150000}, "C12": {3000, 60000}, "C13": {6000, 150000}, "C14": {60000, 1500000}, "C15": {60000, 1500000},
	"C16": {6000, 150000}, "C17": {6000, 150000}, "C18": {6000, 150000}, "C19": {10000, 250000}, "C20": {10000, 250000},
	"C21": {10000, 250000},
}

const workers = 8

// Found is a violation as a worker reports it.
type Found struct {
	Idx     int
	Plan    Plan
	Prelude []int // runs of the same process before it
	Viols   []Viol
	Died    string `json:",omitempty"`
}

// Report is the result of a worker.
type Report struct {
	Stats    Stats
	Found    *Found
	Mismatch int
	Twice    int
	Done     int
	Timeout  bool
}

// Replay is a replay file.
type Replay struct {
	Property  string
	Seed      uint64
	Violation string
	Category  string
	Prelude   []int `json:",omitempty"`
	Died      bool  `json:",omitempty"`
	Plan      Plan
	Trace     []string // the calls and faults, readable
	Minimised string
}

func die(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func mkScratch() {
	base := "/dev/shm"
	if _, err := os.Stat(base); err != nil {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "pdftsim")
	if err != nil {
		d, err = os.MkdirTemp("", "pdftsim")
		if err != nil {
			die(3, "%v", err)
		}
	}
	scratch = d
}

func main() {
	if len(os.Args) < 2 {
		die(3, "usage")
	}
	log.SetOutput(io.Discard)
	switch os.Args[1] {
	case "check":
		check(os.Args[2], os.Args[3])
	case "worker":
		worker()
	case "eval":
		evalMain()
	case "replay":
		replay(os.Args[2])
	case "show":
		n, _ := strconv.Atoi(os.Args[3])
		p := genPlan(os.Args[2], n, envSeed())
		fmt.Println(indent(p))
		for _, l := range trace(p) {
			fmt.Println(l)
		}
	default:
		die(3, "usage")
	}
}

func indent(v interface{}) string { b, _ := json.MarshalIndent(v, "", " "); return string(b) }

func envSeed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}

func begin() {
	mkScratch()
	debug.SetMaxStack(96 << 20)
	initSim()
}

// worker PROP SEED N K OUT DEADLINE(s)
func worker() {
	a := os.Args[2:]
	prop := a[0]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	n, _ := strconv.Atoi(a[2])
	k, _ := strconv.Atoi(a[3])
	out := a[4]
	limit, _ := strconv.Atoi(a[5])
	begin()
	defer os.RemoveAll(scratch)
	start := time.Now()
	rep := Report{Stats: *newStats()}
	st := &rep.Stats
	cur, _ := os.Create(out + ".cur")
	var done []int
	for i := k; i < n; i += workers {
		cur.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		p := genPlan(prop, i, seed)
		v := judge(p, st)
		rep.Done++
		if len(st.Samples) < 2 && v.nont {
			st.Samples = append(st.Samples, strings.Join(trace(p), "; "))
		}
		if i/workers%40 == 0 && len(v.viols) == 0 {
			rep.Twice++
			s2 := newStats()
			if v2 := judge(p, s2); v2.hash != v.hash {
				rep.Mismatch++
			}
		}
		if len(v.viols) > 0 {
			if len(p.Tasks) > 1 {
				p.Slices = v.w.slices
			}
			rep.Found = &Found{Idx: i, Plan: p, Viols: v.viols, Prelude: done}
			break
		}
		done = append(done, i)
		if time.Since(start) > time.Duration(limit)*time.Second {
			rep.Timeout = true
			break
		}
	}
	b, _ := json.Marshal(struct {
		Report
		NH, NI []uint64
	}{rep, keys(st.Hist), keys(st.Inter)})
	os.WriteFile(out, b, 0644)
}

func keys(m map[uint64]bool) []uint64 {
	var k []uint64
	for x := range m {
		k = append(k, x)
	}
	return k
}

// eval reads {Plan, Prelude} and writes what the run shows.
type evalIn struct {
	Plan    Plan
	Prelude []int
}

type evalOut struct {
	Viols  []Viol
	Hash   string
	Slices []Slice
	Steps  int64
}

func evalMain() {
	var in evalIn
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		die(3, "%v", err)
	}
	begin()
	defer os.RemoveAll(scratch)
	st := newStats()
	for _, i := range in.Prelude {
		judge(genPlan(in.Plan.Prop, i, in.Plan.Seed), st)
	}
	v := judge(in.Plan, st)
	b, _ := json.Marshal(evalOut{v.viols, v.hash, v.w.slices, v.w.steps})
	os.Stdout.Write(b)
}

var self = func() string { s, _ := os.Executable(); return s }()

func childEnv() []string {
	return append(os.Environ(), "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single")
}

// eval runs a plan in a process of its own. died: Go's own report of a fatal
// error, "?" for any other trouble.
func eval(p Plan, prelude []int, timeout time.Duration) (o evalOut, died string) {
	b, _ := json.Marshal(evalIn{p, prelude})
	c := exec.Command(self, "eval")
	c.Env = childEnv()
	c.Stdin = bytes.NewReader(b)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		return o, "?"
	}
	var late int32
	t := time.AfterFunc(timeout, func() { atomic.StoreInt32(&late, 1); c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	if err != nil {
		if atomic.LoadInt32(&late) == 1 {
			return o, "timeout"
		}
		return o, deathOf(err, se.String())
	}
	if json.Unmarshal(so.Bytes(), &o) != nil {
		return o, "?"
	}
	return o, ""
}

// stuckAfter: runs take well under a second; the bound on statements ends
// loops of the library, this is for loops elsewhere.
const stuckAfter = 90 * time.Second

const endless = "a call does not end"

// deathOf tells a fatal error inside of the simulated program from trouble
// with the machine.
func deathOf(err error, stderr string) string {
	ee, ok := err.(*exec.ExitError)
	if !ok || !ee.Exited() {
		return "?"
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			if strings.Contains(l, "out of memory") || strings.Contains(l, "cannot allocate") {
				return "?"
			}
			return l
		}
		if strings.HasPrefix(l, "panic: ") {
			return l
		}
	}
	if ee.ExitCode() == 1 {
		return "the process was ended by the library (exit status 1)"
	}
	return "?"
}

func trace(p Plan) []string {
	var out []string
	for i, t := range p.Tasks {
		for k, o := range t.Ops {
			b, _ := json.Marshal(o)
			s := string(b)
			if len(s) > 300 {
				s = s[:300] + "..."
			}
			if len(p.Tasks) > 1 {
				out = append(out, fmt.Sprintf("session %d, call %d: %s", i+1, k+1, s))
			} else {
				out = append(out, fmt.Sprintf("call %d: %s", k+1, s))
			}
		}
	}
	if len(p.Slices) > 0 {
		out = append(out, fmt.Sprintf("schedule: %d turns", len(p.Slices)))
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func check(prop, tier string) {
	start := time.Now()
	bud, ok := budget[prop]
	if !ok {
		die(3, "no property %s", prop)
	}
	n, limit := bud[0], 240
	if tier == "thorough" {
		n, limit = bud[1], 3000
	}
	if s := os.Getenv("SIM_RUNS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("SIM_LIMIT"); s != "" {
		limit, _ = strconv.Atoi(s)
	}
	seed := envSeed()
	tmp, err := os.MkdirTemp("", "pdftsimrun")
	if err != nil {
		die(3, "%v", err)
	}
	exit := func(code int) {
		os.RemoveAll(tmp)
		sweep()
		os.Exit(code)
	}
	reps := make([]*Report, workers)
	var nh, ni = map[uint64]bool{}, map[uint64]bool{}
	var mu sync.Mutex
	var found *Found
	trouble := map[int]string{}
	stuck := map[int]int{} // worker: run that did not end
	var wg sync.WaitGroup
	one := func(k int) {
		out := filepath.Join(tmp, fmt.Sprint("w", k))
		mu.Lock()
		delete(trouble, k)
		mu.Unlock()
		c := exec.Command(self, "worker", prop, fmt.Sprint(seed), fmt.Sprint(n), fmt.Sprint(k), out, fmt.Sprint(limit))
		c.Env = childEnv()
		var se bytes.Buffer
		c.Stderr = &se
		if err := c.Start(); err != nil {
			mu.Lock()
			trouble[k] = err.Error()
			mu.Unlock()
			return
		}
		t := time.AfterFunc(time.Duration(limit+120)*time.Second, func() { c.Process.Kill() })
		over := make(chan bool)
		still := make(chan bool, 1)
		go func() { // no progress for a long time
			last, since := "", time.Now()
			for {
				select {
				case <-over:
					still <- false
					return
				case <-time.After(2 * time.Second):
				}
				cb, _ := os.ReadFile(out + ".cur")
				if s := string(cb); s != last {
					last, since = s, time.Now()
				} else if last != "" && time.Since(since) > stuckAfter {
					c.Process.Kill()
					still <- true
					return
				}
			}
		}()
		err := c.Wait()
		t.Stop()
		close(over)
		isStuck := <-still
		mu.Lock()
		defer mu.Unlock()
		if isStuck && err != nil {
			cb, _ := os.ReadFile(out + ".cur")
			if i, e2 := strconv.Atoi(strings.TrimSpace(string(cb))); e2 == nil {
				stuck[k] = i
			}
			trouble[k] = fmt.Sprintf("worker %d: no progress", k)
			return
		}
		if err != nil {
			cb, _ := os.ReadFile(out + ".cur")
			i, e2 := strconv.Atoi(strings.TrimSpace(string(cb)))
			d := deathOf(err, se.String())
			if e2 != nil || d == "?" {
				trouble[k] = fmt.Sprintf("worker %d: %v: %.600s", k, err, se.String())
				return
			}
			p := genPlan(prop, i, seed)
			if found == nil || i < found.Idx {
				found = &Found{Idx: i, Plan: p, Died: d, Viols: []Viol{{Cat: "died", Msg: "the process dies: " + d}}}
			}
			return
		}
		var r struct {
			Report
			NH, NI []uint64
		}
		b, _ := os.ReadFile(out)
		if json.Unmarshal(b, &r) != nil {
			trouble[k] = fmt.Sprintf("worker %d gave no report", k)
			return
		}
		reps[k] = &r.Report
		for _, x := range r.NH {
			nh[x] = true
		}
		for _, x := range r.NI {
			ni[x] = true
		}
		if r.Found != nil && (found == nil || r.Found.Idx < found.Idx) {
			found = r.Found
		}
	}
	for k := 0; k < workers; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			one(k)
		}()
	}
	wg.Wait()
	for k := 0; k < workers && found == nil; k++ {
		if i, ok := stuck[k]; ok {
			p := genPlan(prop, i, seed)
			if _, died := eval(p, nil, stuckAfter); died == "timeout" {
				found = &Found{Idx: i, Plan: p, Died: endless, Viols: []Viol{{Cat: "died", Msg: endless}}}
			}
		}
	}
	// a worker the machine ended (memory, say) is run again on its own
	for k := 0; k < workers && found == nil; k++ {
		if trouble[k] != "" {
			one(k)
		}
	}
	if found == nil && len(trouble) > 0 {
		fmt.Fprintln(os.Stderr, "no answer:", trouble)
		exit(3)
	}
	var rep *Replay
	if found != nil {
		rep = minimise(prop, seed, found)
		if rep == nil {
			fmt.Fprintf(os.Stderr, "no answer: run %d showed %v, but not again\n", found.Idx, found.Viols)
			exit(3)
		}
	}
	known := 0
	path := ""
	if rep != nil {
		if kf := isKnown(rep); kf != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf)
			known = 1
			rep = nil
		} else {
			dir := filepath.Join(verifDir(), "replays")
			os.MkdirAll(dir, 0755)
			path = filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, found.Idx))
			os.WriteFile(path, []byte(indent(rep)), 0644)
		}
	}
	evidence(prop, tier, seed, reps, len(nh), len(ni), rep, known, time.Since(start))
	if rep != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  run %d of seed %d: %s: %s\n", found.Idx, seed, rep.Category, rep.Violation)
		for _, l := range rep.Trace {
			fmt.Println("  " + l)
		}
		exit(1)
	}
	fmt.Printf("%s: held in %d runs, %.1f s\n", prop, total(reps), time.Since(start).Seconds())
	exit(0)
}

// sweep removes scratch directories of workers that were killed.
func sweep() {
	for _, base := range []string{"/dev/shm", os.TempDir()} {
		ms, _ := filepath.Glob(filepath.Join(base, "pdftsim[0-9]*"))
		for _, m := range ms {
			if fi, err := os.Stat(m); err == nil && time.Since(fi.ModTime()) > 20*time.Minute {
				os.RemoveAll(m)
			}
		}
	}
}

func total(reps []*Report) int {
	n := 0
	for _, r := range reps {
		if r != nil {
			n += r.Stats.Runs
		}
	}
	return n
}

func isKnown(r *Replay) string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> category=<cat> match="<text of the violation>" <what fails>
		if !strings.HasPrefix(l, "known: property="+r.Property+" ") {
			continue
		}
		i := strings.Index(l, `match="`)
		if i < 0 {
			continue
		}
		m := l[i+7:]
		j := strings.Index(m, `"`)
		if j > 0 && strings.Contains(l, "category="+r.Category+" ") && strings.Contains(r.Violation, m[:j]) {
			return strings.TrimSpace(m[j+1:])
		}
	}
	return ""
}

func catOf(vs []Viol) string {
	if len(vs) == 0 {
		return ""
	}
	return vs[0].Cat
}

// minimise reproduces a violation in a fresh process and makes it small.
func minimise(prop string, seed uint64, f *Found) *Replay {
	const to = 60 * time.Second
	p := f.Plan
	if f.Died == endless {
		return &Replay{Property: prop, Seed: seed, Violation: endless, Category: "died", Died: true, Plan: p, Trace: trace(p), Minimised: "not minimised"}
	}
	var prelude []int
	fails := func(p Plan, prelude []int) (Viol, bool) {
		o, died := eval(p, prelude, to)
		if died == "?" || died == "timeout" {
			return Viol{}, false
		}
		if died != "" {
			return Viol{Cat: "died", Msg: "the process dies: " + died}, true
		}
		if len(o.Viols) > 0 {
			return o.Viols[0], true
		}
		return Viol{}, false
	}
	v, ok := fails(p, nil)
	if !ok && f.Died == "" {
		// does it take what the process did before?
		for n := 1; n <= 2*len(f.Prelude); n *= 4 {
			k := len(f.Prelude) - n
			if k < 0 {
				k = 0
			}
			if v, ok = fails(p, f.Prelude[k:]); ok {
				prelude = f.Prelude[k:]
				break
			}
		}
	}
	if !ok {
		return nil
	}
	how := "not minimised"
	tries, good := 0, 0
	deadline := time.Now().Add(40 * time.Second)
	if s := os.Getenv("SIM_MINIMISE"); s != "" {
		n, _ := strconv.Atoi(s)
		deadline = time.Now().Add(time.Duration(n) * time.Second)
	}
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		var cs []Plan
		var pre [][]int
		if len(prelude) > 0 {
			for i := range prelude {
				q := append(append([]int(nil), prelude[:i]...), prelude[i+1:]...)
				cs, pre = append(cs, p), append(pre, q)
				if len(cs) > 16 {
					break
				}
			}
		}
		for _, c := range shrinks(p) {
			cs, pre = append(cs, c), append(pre, prelude)
		}
		for i := 0; i < len(cs) && time.Now().Before(deadline); i += workers {
			hi := i + workers
			if hi > len(cs) {
				hi = len(cs)
			}
			res := make([]*Viol, hi-i)
			var wg sync.WaitGroup
			for k := i; k < hi; k++ {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					if x, ok := fails(cs[k], pre[k]); ok && x.Cat == v.Cat {
						res[k-i] = &x
					}
				}()
			}
			wg.Wait()
			tries += hi - i
			hit := false
			for k := range res {
				if res[k] != nil {
					p, v, prelude = cs[i+k], *res[k], pre[i+k]
					hit, progress = true, true
					good++
					break
				}
			}
			if hit {
				break
			}
		}
	}
	how = fmt.Sprintf("%d reductions in %d attempts", good, tries)
	// the last word: once more, exactly
	v2, ok := fails(p, prelude)
	if !ok {
		return nil
	}
	return &Replay{Property: prop, Seed: seed, Violation: v2.Msg, Category: v2.Cat, Prelude: prelude, Died: v2.Cat == "died", Plan: p, Trace: trace(p), Minimised: how}
}

// shrinks gives simpler plans, the most promising first.
func shrinks(p Plan) []Plan {
	var out []Plan
	add := func(f func(q *Plan) bool) {
		q := p.clone()
		if f(&q) {
			out = append(out, q)
		}
	}
	if len(p.Tasks) > 1 {
		for i := range p.Tasks {
			i := i
			add(func(q *Plan) bool {
				q.Tasks = append(q.Tasks[:i], q.Tasks[i+1:]...)
				var s []Slice
				for _, x := range q.Slices {
					if x.T == i {
						continue
					}
					if x.T > i {
						x.T--
					}
					s = append(s, x)
				}
				q.Slices = s
				return true
			})
		}
	}
	for ti := range p.Tasks {
		ti := ti
		n := len(p.Tasks[ti].Ops)
		for size := n / 2; size >= 1; size /= 2 {
			for at := n - size; at >= 0; at -= size {
				at, size := at, size
				add(func(q *Plan) bool {
					o := q.Tasks[ti].Ops
					for _, x := range o[at : at+size] {
						if x.K == "gxy" || x.K == "gsetfont" { // texts after it must not become others
							for _, y := range o[at+size:] {
								if y.K == "gtext" || y.K == "gcell" {
									return false
								}
							}
						}
					}
					q.Tasks[ti].Ops = append(append([]Op(nil), o[:at]...), o[at+size:]...)
					return len(q.Tasks[ti].Ops) > 0
				})
			}
		}
		for oi, o := range p.Tasks[ti].Ops {
			oi, o := oi, o
			for k := range o.Faults {
				k := k
				add(func(q *Plan) bool {
					e := &q.Tasks[ti].Ops[oi]
					e.Faults = append(e.Faults[:k], e.Faults[k+1:]...)
					return true
				})
			}
			for k := range o.Damage {
				k := k
				add(func(q *Plan) bool {
					e := &q.Tasks[ti].Ops[oi]
					e.Damage = append(e.Damage[:k], e.Damage[k+1:]...)
					return len(e.Damage) > 0
				})
			}
			for k := range o.Fields {
				k := k
				add(func(q *Plan) bool {
					e := &q.Tasks[ti].Ops[oi]
					e.Fields = append(e.Fields[:k], e.Fields[k+1:]...)
					return true
				})
			}
			if o.Tmpl != nil {
				for _, s := range o.Tmpl.Shrinks() {
					s := s
					add(func(q *Plan) bool { q.Tasks[ti].Ops[oi].Tmpl = &s; return true })
				}
			}
			if o.Img != nil {
				for _, s := range o.Img.Shrinks() {
					s := s
					add(func(q *Plan) bool { q.Tasks[ti].Ops[oi].Img = &s; return true })
				}
			}
			if rs := []rune(o.Text); len(rs) > 1 {
				add(func(q *Plan) bool { q.Tasks[ti].Ops[oi].Text = string(rs[:1]); return true })
				add(func(q *Plan) bool { q.Tasks[ti].Ops[oi].Text = string(rs[:len(rs)/2]); return true })
				add(func(q *Plan) bool { q.Tasks[ti].Ops[oi].Text = string(rs[len(rs)/2:]); return true })
			}
			if o.Chunk != 0 && len(o.Faults) == 0 {
				add(func(q *Plan) bool { q.Tasks[ti].Ops[oi].Chunk = 0; return true })
			}
			if o.Scribble {
				add(func(q *Plan) bool { q.Tasks[ti].Ops[oi].Scribble = false; return true })
			}
			if o.Page > 1 && o.Bad == "" {
				add(func(q *Plan) bool { q.Tasks[ti].Ops[oi].Page = 1; return true })
			}
			if o.Align != 0 {
				add(func(q *Plan) bool { q.Tasks[ti].Ops[oi].Align = 0; return true })
			}
			if o.Col != nil {
				add(func(q *Plan) bool { q.Tasks[ti].Ops[oi].Col = nil; return o.K != "gcolor" && o.K != "gstyle" })
			}
			if o.X != float64(int(o.X)) || o.Y != float64(int(o.Y)) || o.X > 10 || o.Y > 10 {
				add(func(q *Plan) bool {
					q.Tasks[ti].Ops[oi].X, q.Tasks[ti].Ops[oi].Y = 10, 10
					return o.X != 10 || o.Y != 10
				})
			}
		}
	}
	if len(p.Slices) > 1 {
		n := len(p.Slices)
		for size := n / 2; size >= 1; size /= 2 {
			for at, c := 0, 0; at+size <= n && c < 24; at, c = at+size, c+1 {
				at, size := at, size
				add(func(q *Plan) bool {
					q.Slices = append(append([]Slice(nil), q.Slices[:at]...), q.Slices[at+size:]...)
					return true
				})
			}
		}
	}
	if p.Share {
		add(func(q *Plan) bool { q.Share = false; return true })
	}
	return out
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die(3, "%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die(3, "%v", err)
	}
	o, died := eval(r.Plan, r.Prelude, 300*time.Second)
	if died == "?" {
		die(3, "the replay gave no answer")
	}
	if died == "timeout" {
		o.Viols = []Viol{{Cat: "died", Msg: endless}}
	} else if died != "" {
		o.Viols = []Viol{{Cat: "died", Msg: "the process dies: " + died}}
	}
	if len(o.Viols) == 0 {
		fmt.Println("the violation does not occur")
		os.Exit(0)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	for _, v := range o.Viols {
		fmt.Printf("  %s: %s\n", v.Cat, v.Msg)
	}
	fmt.Printf("  observation hash %s\n", o.Hash)
	if o.Viols[0].Cat == r.Category && o.Viols[0].Msg == r.Violation {
		fmt.Println("  exactly as recorded")
	}
	os.Exit(1)
}

func evidence(prop, tier string, seed uint64, reps []*Report, nh, ni int, rep *Replay, known int, wall time.Duration) {
	t := newStats()
	twice, mism, timeouts := 0, 0, 0
	var samples []string
	for _, r := range reps {
		if r == nil {
			continue
		}
		s := r.Stats
		t.Runs += s.Runs
		t.Execs += s.Execs
		t.Steps += s.Steps
		t.SimNs += s.SimNs
		t.Switches += s.Switches
		t.NonTriv += s.NonTriv
		for k, v := range s.Ops {
			t.Ops[k] += v
		}
		for k, v := range s.Faults {
			t.Faults[k] += v
		}
		for k, v := range s.Checked {
			t.Checked[k] += v
		}
		twice += r.Twice
		mism += r.Mismatch
		if r.Timeout {
			timeouts++
		}
		for _, x := range s.Samples {
			if len(x) > 500 {
				x = x[:500] + "..."
			}
			if len(samples) < 5 {
				samples = append(samples, x)
			}
		}
	}
	h := wall.Hours()
	cov := map[string]interface{}{
		"evaluations":                  t.Runs,
		"distinct_nontrivial":          nh,
		"rule":                         "distinct histories: sequence of calls with kind of input, delivery, page and faults of every session of a run, hashed; a run counts if it delivered a document after at least one edit, or met a fault",
		"samples":                      samples,
		"nontrivial_runs":              t.NonTriv,
		"simulated_executions":         t.Execs,
		"runs_per_hour":                int(float64(t.Runs) / h),
		"seeds_per_hour":               int(float64(t.Runs) / h),
		"simulated_seconds":            float64(t.SimNs) / 1e9,
		"simulated_time_note":          "the simulated clock advances 1 us per statement of the library and 1 us per reading of the clock",
		"statements_executed":          t.Steps,
		"calls":                        t.Ops,
		"faults_injected":              t.Faults,
		"checks_made":                  t.Checked,
		"task_switches":                t.Switches,
		"distinct_interleavings":       ni,
		"interleaving_measure":         "hash of the sequence (task, program point) at every switch",
		"determinism":                  map[string]int{"runs executed twice": twice, "different the second time": mism},
		"workers_that_ran_out_of_time": timeouts,
		"known_findings":               known,
		"real_components":              []string{"pdft", "pdft/minigopdf and fontmaker/core", "pdft/render", "pdft/textbreak", "the Go runtime and standard library"},
		"simulated_components":         []string{"scheduler of the sessions (statement level)", "clock", "crypto/rand", "map iteration order and runtime randomness", "file system errors (system calls on a real scratch directory)", "io.Reader and io.Writer of the caller", "text breakers of the caller"},
	}
	if rep != nil {
		cov["violation"] = rep.Category + ": " + rep.Violation
	}
	viols := 0
	if rep != nil {
		viols = 1
	}
	e := map[string]interface{}{
		"property": prop, "tier": tier, "seed": int(seed & 0x7fffffff), "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": viols,
		"assumptions": []string{
			"search over seeds, not proof: what was not drawn was not seen",
			"templates are generated within the limits in DESIGN.md and taken from the repository's own examples",
			"the oracle's PDF, font and image readers are right; they share no code with the library",
		},
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, prop+".json"), []byte(indent(e)), 0644)
}

var _ = sort.Strings
var _ = runtime.NumCPU

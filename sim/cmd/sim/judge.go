//go:debug randseednop=0
package main

import (
	"bytes"
	"crypto/md5"
	"fmt"
	mrand "math/rand"
	"strings"

	"verif/sim/pdfx"
)

// which observations count against a property: categories that count wherever
// they are seen, and calls whose outcome (error, no error) it speaks about.
type scope struct {
	cats  string
	calls string // err and noerr at these calls
}

const opens = "open openlast ropen save "
const edits = "addfont setfont border kern rise insert wrap measure img dup rm rmother npages protect rtext rimg rdesign rbreaker "
const gcalls = "gstart gpage gfont gsetfont gcolor gxy gtext gcell gmeasure gline gshape gstyle gkern gbr gpos gmargin gimg ginfo gbytes gwrite gread "

var scopes = map[string]scope{
	"C01": {"struct", opens},
	"C02": {"struct tmpl pages", opens},
	"C03": {"struct text measure", opens + "addfont setfont border kern rise insert measure"},
	"C04": {"struct image", opens + "img"},
	"C05": {"struct pages tmpl text image", opens + "dup rm rmother npages"},
	"C06": {"struct tmpl pages text image protect lost", opens + edits},
	"C07": {"leak struct tmpl pages text image protect lost torn", opens + "gwrite "},
	"C08": {"leak struct tmpl pages text image", opens + "addfont gfont gimg"},
	"C09": {"struct tmpl pages text image protect lost modified measure", opens + edits + gcalls},
	"C10": {"", ""},
	"C11": {"struct protect", opens + "protect"},
	"C12": {"protect", "protect save gbytes gwrite"},
	"C13": {"", edits + gcalls},
	"C14": {"", ""},
	"C15": {"leak struct pages text image protect measure lost modified", gcalls},
	"C16": {"struct tmpl pages text image protect measure", opens + edits},
	"C17": {"modified", ""},
	"C18": {"struct tmpl pages text image", opens + edits},
	"C19": {"struct tmpl text image", opens + "addfont rtext rimg rdesign rbreaker"},
	"C20": {"struct text", opens + "addfont setfont wrap"},
	"C21": {"leak made", "mkfont"},
}

func has(list, w string) bool { return strings.Contains(" "+list+" ", " "+w+" ") }

func relevant(prop string, v Viol) bool {
	sc := scopes[prop]
	switch v.Cat {
	case "panic", "hang":
		return true
	case "err", "noerr":
		if prop == "C13" {
			return v.Cat == "noerr"
		}
		return has(sc.calls, v.Op)
	case "variant":
		return true
	}
	return has(sc.cats, v.Cat)
}

type verdict struct {
	viols []Viol
	hash  string // of everything observed
	w     *World
	nont  bool // the run was not trivial for its property
}

func (v *verdict) add(cat, f string, a ...interface{}) {
	v.viols = append(v.viols, Viol{Cat: cat, Msg: fmt.Sprintf(f, a...)})
}

// observe collects what a run showed.
func (v *verdict) observe(p Plan, w *World) {
	h := md5.New()
	fmt.Fprint(h, v.hash)
	for i, t := range w.tasks {
		for _, x := range t.s.viol {
			if relevant(p.Prop, x) {
				if len(w.tasks) > 1 {
					x.Msg = fmt.Sprintf("session %d, ", i+1) + x.Msg
				}
				v.viols = append(v.viols, x)
			}
		}
		fmt.Fprintf(h, "%v %v", t.s.res, t.s.viol)
		for _, o := range t.s.outs {
			h.Write(o.b)
		}
	}
	fmt.Fprint(h, w.steps, w.ihash)
	v.hash = fmt.Sprintf("%x", h.Sum(nil))
}

func runPlan(p Plan, st *Stats) *World {
	cleanScratch(len(p.Tasks))
	return Exec(p, st)
}

// sameOuts compares documents; equal: byte for byte.
func sameOuts(a, b []out, exact bool) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d documents against %d", len(a), len(b))
	}
	for i := range a {
		if bytes.Equal(a[i].b, b[i].b) {
			continue
		}
		if !exact && a[i].canonical() == b[i].canonical() {
			continue
		}
		return fmt.Sprintf("document %d differs: %s", i+1, diff(a[i].b, b[i].b))
	}
	return ""
}

func diff(a, b []byte) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return fmt.Sprintf("%d against %d bytes, first difference at %d: %q, %q", len(a), len(b), n, around(a, n), around(b, n))
}

func around(b []byte, n int) string {
	lo, hi := n-20, n+30
	if lo < 0 {
		lo = 0
	}
	if hi > len(b) {
		hi = len(b)
	}
	return string(b[lo:hi])
}

func single(p Plan, ops []Op) Plan {
	q := p
	q.Tasks = []Task{{ops}}
	q.Slices = nil
	return q
}

// judge decides one run.
func judge(p Plan, st *Stats) *verdict {
	v := &verdict{}
	var seedBefore int64
	if p.Prop == "C12" {
		seedBefore = int64(p.Seed % 1000003)
		mrand.Seed(seedBefore)
	}
	w := runPlan(p, st)
	v.w = w
	v.observe(p, w)
	s := w.tasks[0].s
	ops := p.Tasks[0].Ops
	v.nont = len(s.outs) > 0 && len(ops) > 2
	switch p.Prop {
	case "C06":
		// the same without any save but the last
		if s.dead || len(s.outs) == 0 {
			break
		}
		var kept []Op
		for i, o := range ops {
			if o.K != "save" || i == len(ops)-1 {
				kept = append(kept, o)
			}
		}
		if len(kept) == 0 || kept[len(kept)-1].K != "save" {
			break
		}
		w2 := runPlan(single(p, kept), st)
		s2 := w2.tasks[0].s
		if len(s2.outs) == 1 && s.outs[len(s.outs)-1].op == len(ops)-1 {
			if m := sameOuts(s.outs[len(s.outs)-1:], s2.outs, false); m != "" {
				v.add("variant", "a document saved after other saves is not the one saved at once: %s", m)
			}
			st.Checked["saves compared with a single save"]++
		}
		// two saves in a row are the same bytes
		for i := 1; i < len(s.outs); i++ {
			quiet := true
			for k := s.outs[i-1].op + 1; k < s.outs[i].op; k++ {
				quiet = quiet && (ops[k].K == "save" || ops[k].K == "npages")
			}
			if quiet {
				st.Checked["consecutive saves compared"]++
				if !bytes.Equal(s.outs[i-1].b, s.outs[i].b) {
					v.add("variant", "two saves without an edit between them differ: %s", diff(s.outs[i-1].b, s.outs[i].b))
				}
			}
		}
	case "C08":
		var plain []Op
		for i, o := range ops {
			if i < len(s.res) && s.res[i] == "error" && (len(o.Faults) > 0 || o.Bad != "") {
				continue
			}
			if o.K != "gread" {
				o.Chunk, o.Faults = 0, nil
			}
			if o.K == "gfont" || o.K == "open" || o.K == "addfont" {
				o.Via = ""
			}
			plain = append(plain, o)
		}
		if s.dead {
			break
		}
		w2 := runPlan(single(p, plain), st)
		if m := sameOuts(s.outs, w2.tasks[0].s.outs, false); m != "" {
			v.add("variant", "the document depends on how its inputs were delivered: %s", m)
		}
		st.Checked["documents compared with plain delivery"] += len(s.outs)
	case "C09":
		v.nont = w.nswitch > 0
		for i := range p.Tasks {
			w2 := runPlan(single(p, p.Tasks[i].Ops), st)
			a, b := w.tasks[i].s, w2.tasks[0].s
			if fmt.Sprint(a.res) != fmt.Sprint(b.res) {
				v.add("variant", "session %d: its calls end %v, alone %v", i+1, a.res, b.res)
			}
			if m := sameOuts(a.outs, b.outs, false); m != "" {
				v.add("variant", "session %d: among others it gives another document than alone: %s", i+1, m)
			}
			st.Checked["sessions compared with running alone"]++
		}
	case "C10":
		for k := 0; k < 3; k++ {
			q := p
			if k != 1 {
				q.Map = mix(p.Map, k) >> 1
			}
			if k != 0 {
				q.Clock = p.Clock + int64(mix(p.Clock, k)%(1<<57)) - 1<<56
				q.Entropy = mix(p.Entropy, k) >> 1
			}
			w2 := runPlan(q, st)
			if m := sameOuts(s.outs, w2.tasks[0].s.outs, true); m != "" {
				v.add("variant", "%s gives other bytes: %s", []string{"another map order", "another time of day", "another map order and time"}[k], m)
			}
			st.Checked["documents compared with another run"] += len(s.outs)
		}
	case "C11":
		var plain []Op
		for _, o := range ops {
			if o.K != "protect" {
				plain = append(plain, o)
			}
		}
		if s.dead {
			break
		}
		w2 := runPlan(single(p, plain), st)
		s2 := w2.tasks[0].s
		if len(s.outs) == len(s2.outs) {
			var pr *protM
			k := 0
			for i, o := range ops {
				if o.K == "protect" {
					pr = &protM{user: o.User}
				}
				if o.K != "save" || k >= len(s.outs) || s.outs[k].op != i {
					continue
				}
				if pr != nil {
					if c := s.outs[k].canonical(); c != s2.outs[k].canonical() {
						v.add("variant", "decrypted, the protected document is not the unprotected one (%s)", firstDiff(c, s2.outs[k].canonical()))
					}
					st.Checked["decrypted documents compared with the unprotected"]++
					if x := plainLeak(s.outs[k].b, s2.outs[k].b); x != "" {
						v.add("protect", "%s", x)
					}
				}
				k++
			}
		}
	case "C12":
		j13(p, w, v, st, seedBefore)
	case "C13":
		if s.dead {
			break
		}
		var good []Op
		n := 0
		for i, o := range ops {
			if i < len(s.res) && s.res[i] == "error" {
				n++
				continue
			}
			good = append(good, o)
		}
		v.nont = n > 0
		if n == 0 {
			break
		}
		w2 := runPlan(single(p, good), st)
		s2 := w2.tasks[0].s
		if m := sameOuts(s.outs, s2.outs, false); m != "" {
			v.add("variant", "calls that failed have left something behind: %s", m)
		}
		st.Checked["failed calls"] += n
	case "C14":
		v.nont = true
	case "C21":
		v.nont = len(s.outs) > 0
		q := p
		q.Map = mix(p.Map, 1) >> 1
		q.Entropy = mix(p.Entropy, 1) >> 1
		q.Clock = p.Clock + int64(mix(p.Clock, 1)%(1<<57)) - 1<<56
		w2 := runPlan(q, st)
		for i := range w.tasks {
			if m := sameOuts(w.tasks[i].s.outs, w2.tasks[i].s.outs, true); m != "" {
				v.add("variant", "another map order and time give other files: %s", m)
			}
		}
		st.Checked["runs compared with another run"]++
	case "C16":
		if s.dead {
			break
		}
		last := -1
		for i, o := range ops {
			if o.K == "open" && len(o.Faults) == 0 && len(o.Damage) == 0 {
				last = i
			}
		}
		var fresh []Op
		for i, o := range ops {
			if i >= last || o.K == "protect" {
				fresh = append(fresh, o)
			}
		}
		w2 := runPlan(single(p, fresh), st)
		s2 := w2.tasks[0].s
		n := len(s2.outs)
		if len(s.outs) < n {
			v.add("variant", "a session used before saves %d documents, a fresh one %d", len(s.outs), n)
		} else if m := sameOuts(s.outs[len(s.outs)-n:], s2.outs, false); m != "" {
			v.add("variant", "a session used before gives another document than a fresh one: %s", m)
		}
		st.Checked["documents compared with a fresh session"] += n
	case "C17":
		var plain []Op
		n := 0
		for _, o := range ops {
			if o.Scribble {
				n++
			}
			o.Scribble = false
			plain = append(plain, o)
		}
		v.nont = n > 0
		w2 := runPlan(single(p, plain), st)
		if m := sameOuts(s.outs, w2.tasks[0].s.outs, true); m != "" {
			v.add("variant", "reusing buffers after the call returned changes the document: %s", m)
		}
		st.Checked["buffers reused"] += n
	}
	st.Runs++
	if v.nont {
		st.NonTriv++
	}
	h := uint64(14695981039346656037)
	for _, t := range w.tasks {
		h = h*1099511628211 ^ t.s.hist
	}
	st.Hist[h] = true
	return v
}

func firstDiff(a, b string) string { return diff([]byte(a), []byte(b)) }

// plainLeak: does a protected file show a stream of the unprotected one?
func plainLeak(enc, plain []byte) string {
	d := pdfx.Parse(plain)
	for _, n := range d.Order() {
		if s, ok := d.Objs[n].O.(*pdfx.Stream); ok && len(s.Raw) >= 24 {
			if bytes.Contains(enc, s.Raw) {
				return fmt.Sprintf("a stream of %d bytes is not encrypted", len(s.Raw))
			}
		}
	}
	return ""
}

// j13: the owner password of a document protected without one
func j13(p Plan, w *World, v *verdict, st *Stats, seed int64) {
	after := mrand.Int63()
	ref := mrand.New(mrand.NewSource(seed))
	found := false
	for i := 0; i < 4000 && !found; i++ {
		found = ref.Int63() == after
	}
	if !found {
		v.add("variant", "the random number generator of the program was seeded again")
	}
	s := w.tasks[0].s
	if s.dead || len(s.outs) == 0 {
		return
	}
	ops := p.Tasks[0].Ops
	hasProt := false
	for _, o := range ops {
		hasProt = hasProt || (o.K == "protect" || o.K == "gstart" && o.On) && len(o.Owner) == 0
	}
	if !hasProt {
		return
	}
	if w.entN < 8 {
		v.add("variant", "only %d bytes were taken from the system's random source for the owner password", w.entN)
	}
	seen := map[string]int{}
	for k := 0; k < 4; k++ {
		q := p
		if k > 0 {
			q.Entropy = mix(p.Entropy, k) >> 1
		}
		mrand.Seed(seed)
		w2 := runPlan(q, st)
		s2 := w2.tasks[0].s
		if len(s2.outs) == 0 {
			return
		}
		d := pdfx.Parse(s2.outs[len(s2.outs)-1].b)
		if d.Encrypt == nil {
			return
		}
		o, _ := d.Encrypt["O"].(pdfx.Str)
		if _, dup := seen[string(o)]; dup {
			v.add("variant", "the owner password does not depend on the system's random source: the same at the same time of day")
			return
		}
		seen[string(o)] = k
	}
	st.Checked["generated owner passwords"] += 4
	// a fixed owner password in disguise: anything guessable opens it
	d := pdfx.Parse(s.outs[len(s.outs)-1].b)
	for _, o := range ops {
		if o.K == "protect" || o.K == "gstart" && o.On {
			for _, g := range [][]byte{nil, o.User, []byte("owner")} {
				if len(g) == 0 && len(o.User) == 0 {
					continue
				}
				if bytes.Equal(d.OwnerOpens(g), pdfx.PadPw(o.User)) {
					v.add("variant", "the owner password is guessable: %q opens the document", g)
				}
			}
		}
	}
}

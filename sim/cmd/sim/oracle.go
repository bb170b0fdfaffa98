package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	"verif/sim/fontx"
	"verif/sim/gen"
	"verif/sim/pdfx"
)

// Viol is one observation that contradicts a property.
type Viol struct {
	Cat string // struct tmpl pages text image protect err noerr panic hang ...
	Msg string
	Op  string // the call it was seen at
}

func (v Viol) String() string { return v.Cat + ": " + v.Msg }

type viols struct{ v []Viol }

func (l *viols) add(cat, f string, a ...interface{}) {
	if len(l.v) < 20 {
		m := fmt.Sprintf(f, a...)
		if len(m) > 600 {
			m = m[:600] + "..."
		}
		l.v = append(l.v, Viol{Cat: cat, Msg: m})
	}
}

// ---- what a page is expected to show ----

type glyphX struct {
	r    rune
	gid  int
	kern int
	rise float64
}

type markX struct {
	kind       string // text img
	page       int
	x, y       float64
	w, h       float64
	f          *fontM
	size       int
	col        [3]float64
	glyphs     []glyphX
	text       string
	img        *gen.Pix
	imgKey     string
	cached     bool
	rects      [][4]float64
	lines      [][4]float64
	underColor bool
}

type fontM struct {
	name string
	f    *fontx.Font
	kern int
	rise int
	tab  bool // the font's own kerning is used
	// for each used glyph: what it must stand for
}

type pageM struct {
	src int // page of the template
	dup bool
	// clones of clones keep src
}

// ---- template fidelity ----

type cmpT struct {
	T, O    *pdfx.Doc
	l       *viols
	m       map[int]int
	ext     map[int]bool
	visited map[[2]string]bool
	pageT   map[int]int // template object number of a page -> index
	pageO   map[int]int // index -> object number in the output, -1 if gone
	n       int
}

func (c *cmpT) ne(path, f string, a ...interface{}) {
	c.l.add("tmpl", "%s: %s", path, fmt.Sprintf(f, a...))
}

func (c *cmpT) eq(t, o pdfx.Obj, path string) {
	c.n++
	if len(c.l.v) > 8 {
		return
	}
	superset := false
	if tr, ok := t.(pdfx.Ref); ok {
		if i, ok := c.pageT[tr.N]; ok {
			want := c.pageO[i]
			if want < 0 {
				return
			}
			if or, ok := o.(pdfx.Ref); !ok || or.N != want {
				c.ne(path, "refers to page object of template page %d, in the output it is %s and that page is object %d", i+1, pdfx.Show(o), want)
			}
			return
		}
		if c.T.Nodes[tr.N] {
			return
		}
		if c.T.Objs[tr.N] == nil {
			return
		}
		superset = c.ext[tr.N]
		if or, ok := o.(pdfx.Ref); ok {
			if prev, ok := c.m[tr.N]; ok && !superset {
				if prev != or.N {
					c.ne(path, "object %d of the template is once object %d and once object %d", tr.N, prev, or.N)
				}
				return
			}
			c.m[tr.N] = or.N
		}
		k := [2]string{fmt.Sprint(tr.N), pdfx.Show(o)}
		if c.visited[k] {
			return
		}
		c.visited[k] = true
		t = c.T.Resolve(t)
	}
	o = c.O.Resolve(o)
	switch tv := t.(type) {
	case pdfx.Num:
		ov, ok := o.(pdfx.Num)
		if !ok || math.Abs(ov.V-tv.V) > 1e-6 {
			c.ne(path, "was %s, is %s", pdfx.Show(t), pdfx.Show(o))
		}
	case pdfx.Arr:
		ov, ok := o.(pdfx.Arr)
		if !ok || len(ov) != len(tv) {
			c.ne(path, "was %s, is %s", cutS(pdfx.Show(t)), cutS(pdfx.Show(o)))
			return
		}
		for i := range tv {
			c.eq(tv[i], ov[i], fmt.Sprintf("%s[%d]", path, i))
		}
	case pdfx.Dict:
		ov, ok := o.(pdfx.Dict)
		if !ok {
			c.ne(path, "was a dictionary, is %s", cutS(pdfx.Show(o)))
			return
		}
		if tv["Type"] == pdfx.Name("Page") {
			// a page taken out by an earlier edit that an outline or an
			// action still names; the page is not part of the document
			return
		}
		c.dict(tv, ov, path, superset, nil)
	case *pdfx.Stream:
		ov, ok := o.(*pdfx.Stream)
		if !ok {
			c.ne(path, "was a stream, is %s", cutS(pdfx.Show(o)))
			return
		}
		tb, e1 := c.T.Decode(tv)
		ob, e2 := c.O.Decode(ov)
		if e1 != nil || e2 != nil {
			// not decodable: the bytes themselves
			tb, ob = tv.Raw, ov.Raw
			c.eq(or0(tv.D["Filter"]), or0(ov.D["Filter"]), path+"/Filter")
		}
		if !bytes.Equal(tb, ob) {
			c.ne(path, "stream data differs (%d bytes before, %d now)", len(tb), len(ob))
		}
		c.dict(tv.D, ov.D, path, false, map[pdfx.Name]bool{"Length": true, "Filter": true, "DecodeParms": true})
	case pdfx.Null, nil:
		switch o.(type) {
		case pdfx.Null, nil:
		default:
			c.ne(path, "was null, is %s", cutS(pdfx.Show(o)))
		}
	default:
		if t != o {
			c.ne(path, "was %s, is %s", cutS(pdfx.Show(t)), cutS(pdfx.Show(o)))
		}
	}
}

func or0(o pdfx.Obj) pdfx.Obj {
	if o == nil {
		return pdfx.Null{}
	}
	return o
}

func cutS(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

func (c *cmpT) dict(t, o pdfx.Dict, path string, superset bool, skip map[pdfx.Name]bool) {
	for _, k := range pdfx.SortedKeys(t) {
		if skip[k] {
			continue
		}
		ov, ok := o[k]
		if !ok {
			switch c.T.Resolve(t[k]).(type) {
			case pdfx.Null:
				continue
			}
			c.ne(path, "/%s is gone", k)
			continue
		}
		if superset && (k == "Font" || k == "XObject") {
			if td, ok := t[k].(pdfx.Dict); ok {
				if od := c.O.Dict(ov); od != nil {
					c.dict(td, od, path+"/"+string(k), true, nil)
					continue
				}
			}
		}
		c.eq(t[k], ov, path+"/"+string(k))
	}
	if superset {
		return
	}
	for _, k := range pdfx.SortedKeys(o) {
		if skip[k] {
			continue
		}
		if _, ok := t[k]; !ok {
			c.ne(path, "/%s %s was not there before", k, cutS(pdfx.Show(o[k])))
		}
	}
}

// resources: everything stays, only fonts and XObjects under new names are added
func (c *cmpT) resources(tp, op pdfx.Page, path string, fonts, xobjs map[pdfx.Name]bool) {
	tr := c.T.Dict(tp.Inh["Resources"])
	or := c.O.Dict(op.Inh["Resources"])
	for _, k := range pdfx.SortedKeys(tr) {
		if or == nil || or[k] == nil {
			c.ne(path, "resource category /%s is gone", k)
			continue
		}
		if k != "Font" && k != "XObject" {
			c.eq(tr[k], or[k], path+"/"+string(k))
			continue
		}
		td, od := c.T.Dict(tr[k]), c.O.Dict(or[k])
		if od == nil {
			c.ne(path, "resource category /%s is not a dictionary", k)
			continue
		}
		for _, n := range pdfx.SortedKeys(td) {
			if od[n] == nil {
				c.ne(path, "resource /%s /%s is gone", k, n)
				continue
			}
			c.eq(td[n], od[n], path+"/"+string(k)+"/"+string(n))
		}
	}
	for _, k := range pdfx.SortedKeys(or) {
		if k != "Font" && k != "XObject" {
			if tr == nil || tr[k] == nil {
				c.ne(path, "resource category /%s was not there before", k)
			}
		}
	}
}

func sameOps(a, b pdfx.ContentOp) bool {
	if a.Op != b.Op || len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if pdfx.Show(a.Args[i]) != pdfx.Show(b.Args[i]) {
			return false
		}
	}
	return true
}

// isPrefix gives the operators after the template's own, or a description of
// the first difference. The template's may be after one or more q; what
// follows is drawn with the graphics state that all before it leaves (pre).
func isPrefix(t, o []pdfx.ContentOp) (tail, pre []pdfx.ContentOp, wrap int, diff string) {
	tail, diff = prefix(t, o)
	if diff == "" {
		return tail, t, 0, ""
	}
	for k := 0; k < len(o) && o[k].Op == "q"; k++ {
		if w, d := prefix(t, o[k+1:]); d == "" {
			return w, o[:len(o)-len(w)], k + 1, ""
		}
	}
	return nil, nil, 0, diff
}

// among: the operators t are all in o, in order
func among(t, o []pdfx.ContentOp) bool {
	for len(t) > 0 && len(o) > 0 {
		if sameOps(t[0], o[0]) {
			t = t[1:]
		}
		o = o[1:]
	}
	return len(t) == 0
}

func prefix(t, o []pdfx.ContentOp) ([]pdfx.ContentOp, string) {
	for i := range t {
		if i >= len(o) {
			return nil, fmt.Sprintf("operator %d of %d (%s) and what follows is gone", i+1, len(t), t[i].Op)
		}
		if !sameOps(t[i], o[i]) {
			return nil, fmt.Sprintf("operator %d was %s, is %s", i+1, showOp(t[i]), showOp(o[i]))
		}
	}
	return o[len(t):], ""
}

func showOp(o pdfx.ContentOp) string {
	var s []string
	for _, a := range o.Args {
		s = append(s, pdfx.Show(a))
	}
	return cutS(strings.Join(append(s, o.Op), " "))
}

// ---- reading what was drawn ----

type glyphA struct {
	gid  int
	adj  float64
	rise float64
}

type markA struct {
	kind   string
	font   pdfx.Name
	size   float64
	x, y   float64
	col    [3]float64
	glyphs []glyphA
	m      [6]float64
	xobj   pdfx.Name
	n      int
}

type drawn struct {
	marks  []markA
	rects  [][7]float64 // x y w h r g b
	lines  [][4]float64
	styles []lineStyle // of the lines
	odd    []string
	oddImg []string
}

type lineStyle struct {
	w    float64
	dash string
}

var leftovers0 = [...]string{"Tc", "Tz", "Tr", "W", "gs", "w", "d", "RG"}

func mul(a, b [6]float64) [6]float64 { // a then b
	return [6]float64{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5],
	}
}

// readMarks: what ops draw, in the graphics state that pre leaves, the first
// wrap operators of which are q.
func readMarks(wrap int, pre, ops []pdfx.ContentOp) drawn {
	var d drawn
	id := [6]float64{1, 0, 0, 1, 0, 0}
	type gs struct {
		ctm  [6]float64
		col  [3]float64
		font pdfx.Name
		size float64
		rise float64
		line lineStyle
		left [len(leftovers0)]bool // set by pre and not since
	}
	st := gs{ctm: id, line: lineStyle{1, "[]"}}
	var stack []gs
	dirty := func(kinds string) {
		for i, k := range leftovers0 {
			if st.left[i] && has(kinds, k) {
				d.odd = append(d.odd, "drawn with what the content of the template left behind ("+k+")")
			}
		}
	}
	inPre := true
	own := 0 // q without Q in pre
	var tm [6]float64
	inText := false
	var cur markA
	var adj float64
	var rects [][4]float64
	var pts [][2]float64
	num := func(o pdfx.ContentOp, i int) float64 {
		if i < len(o.Args) {
			if n, ok := o.Args[i].(pdfx.Num); ok {
				return n.V
			}
		}
		d.odd = append(d.odd, "operand of "+showOp(o))
		return math.NaN()
	}
	at := func(x, y float64) (float64, float64) {
		return x*st.ctm[0] + y*st.ctm[2] + st.ctm[4], x*st.ctm[1] + y*st.ctm[3] + st.ctm[5]
	}
	show := func(s pdfx.Str) {
		if len(s)%2 == 1 {
			d.odd = append(d.odd, "odd number of bytes shown")
		}
		for i := 0; i+1 < len(s); i += 2 {
			if len(cur.glyphs) == 0 {
				cur.font, cur.size, cur.col = st.font, st.size, st.col
				m := mul(tm, st.ctm)
				cur.x, cur.y = m[4], m[5]
				dirty("Tc Tz Tr W gs")
				if m[0] != 1 || m[3] != 1 || m[1] != 0 || m[2] != 0 {
					d.odd = append(d.odd, fmt.Sprintf("text matrix %v", m))
				}
			} else if cur.font != st.font || cur.size != st.size || cur.col != st.col {
				d.odd = append(d.odd, "font or colour changes within a text")
			}
			cur.glyphs = append(cur.glyphs, glyphA{int(s[i])<<8 | int(s[i+1]), adj, st.rise})
			adj = 0
		}
	}
	for i, o := range append(pre[:len(pre):len(pre)], ops...) {
		if inPre && i == len(pre) {
			d = drawn{}
			inPre, inText, rects, pts = false, false, nil, nil
			if own = len(stack) - wrap; own < 0 {
				own = 0
			}
		}
		for j, k := range leftovers0 {
			if o.Op == k || o.Op == "G" && k == "RG" || (o.Op == "K" || o.Op == "SC" || o.Op == "SCN") && k == "RG" || o.Op == "W*" && k == "W" {
				st.left[j] = inPre || st.left[j] && (k == "W" || k == "gs")
			}
		}
		switch o.Op {
		case "q":
			stack = append(stack, st)
		case "Q":
			if len(stack) == 0 {
				d.odd = append(d.odd, "Q without q")
				continue
			}
			st = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			var m [6]float64
			for i := range m {
				m[i] = num(o, i)
			}
			st.ctm = mul(m, st.ctm)
		case "sc":
			if inPre && len(o.Args) == 3 {
				st.col = [3]float64{num(o, 0), num(o, 1), num(o, 2)}
			} else {
				d.odd = append(d.odd, showOp(o))
			}
		case "rg":
			st.col = [3]float64{num(o, 0), num(o, 1), num(o, 2)}
		case "g":
			v := num(o, 0)
			st.col = [3]float64{v, v, v}
		case "BT":
			if inText {
				d.odd = append(d.odd, "BT in BT")
			}
			inText, tm, cur, adj = true, id, markA{kind: "text"}, 0
		case "ET":
			if !inText {
				d.odd = append(d.odd, "ET without BT")
			}
			inText = false
			if len(cur.glyphs) > 0 {
				cur.n = len(d.marks)
				d.marks = append(d.marks, cur)
			}
		case "Td", "TD":
			tm = mul([6]float64{1, 0, 0, 1, num(o, 0), num(o, 1)}, tm)
		case "Tm":
			for i := range tm {
				tm[i] = num(o, i)
			}
		case "Tf":
			if n, ok := first(o).(pdfx.Name); ok {
				st.font, st.size = n, num(o, 1)
			} else {
				d.odd = append(d.odd, showOp(o))
			}
		case "Ts":
			st.rise = num(o, 0)
		case "Tj":
			if s, ok := first(o).(pdfx.Str); ok && inText {
				show(s)
			} else {
				d.odd = append(d.odd, showOp(o))
			}
		case "TJ":
			a, ok := first(o).(pdfx.Arr)
			if !ok || !inText {
				d.odd = append(d.odd, showOp(o))
				continue
			}
			for _, e := range a {
				switch v := e.(type) {
				case pdfx.Str:
					show(v)
				case pdfx.Num:
					adj += v.V
				default:
					d.odd = append(d.odd, showOp(o))
				}
			}
		case "re":
			rects = append(rects, [4]float64{num(o, 0), num(o, 1), num(o, 2), num(o, 3)})
		case "f", "F", "f*":
			for _, r := range rects {
				x, y := at(r[0], r[1])
				// width and height may be negative: normalise
				w, h := r[2]*st.ctm[0], r[3]*st.ctm[3]
				if w < 0 {
					x, w = x+w, -w
				}
				if h < 0 {
					y, h = y+h, -h
				}
				dirty("W gs")
				d.rects = append(d.rects, [7]float64{x, y, w, h, st.col[0], st.col[1], st.col[2]})
			}
			rects, pts = nil, nil
		case "m":
			x, y := at(num(o, 0), num(o, 1))
			pts = [][2]float64{{x, y}}
		case "l":
			x, y := at(num(o, 0), num(o, 1))
			pts = append(pts, [2]float64{x, y})
		case "S", "s":
			for i := 0; i+1 < len(pts); i++ {
				dirty("W gs w d RG")
				d.lines = append(d.lines, [4]float64{pts[i][0], pts[i][1], pts[i+1][0], pts[i+1][1]})
				d.styles = append(d.styles, st.line)
			}
			pts, rects = nil, nil
		case "n":
			pts, rects = nil, nil
		case "Do":
			if n, ok := first(o).(pdfx.Name); ok {
				k := len(d.odd)
				dirty("W gs")
				d.oddImg = append(d.oddImg, d.odd[k:]...)
				d.odd = d.odd[:k]
				d.marks = append(d.marks, markA{kind: "img", m: st.ctm, xobj: n})
			}
		case "w":
			st.line.w = num(o, 0)
		case "d":
			st.line.dash = pdfx.Show(first(o))
		case "J", "j", "M", "i", "RG", "G", "gs", "ri":
		default:
			d.odd = append(d.odd, showOp(o))
		}
	}
	if len(ops) == 0 {
		return drawn{}
	}
	if inText || len(stack) > own {
		d.odd = append(d.odd, "unbalanced q or BT at the end of the content")
	}
	return d
}

func first(o pdfx.ContentOp) pdfx.Obj {
	if len(o.Args) == 0 {
		return nil
	}
	return o.Args[0]
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// ---- fonts ----

type fontA struct {
	err     string
	sub     *fontx.Font
	fd      pdfx.Dict
	widths  map[int]float64
	dw      float64
	toUni   map[int][]rune
	checked map[string]string
}

func readFont(d *pdfx.Doc, o pdfx.Obj) *fontA {
	fa := &fontA{widths: map[int]float64{}, toUni: map[int][]rune{}, checked: map[string]string{}, dw: 1000}
	bad := func(f string, a ...interface{}) *fontA { fa.err = fmt.Sprintf(f, a...); return fa }
	t0 := d.Dict(o)
	if t0 == nil || t0["Type"] != pdfx.Name("Font") || t0["Subtype"] != pdfx.Name("Type0") || t0["Encoding"] != pdfx.Name("Identity-H") {
		return bad("font dictionary %s", cutS(pdfx.Show(t0)))
	}
	df, _ := d.Resolve(t0["DescendantFonts"]).(pdfx.Arr)
	if len(df) != 1 {
		return bad("/DescendantFonts %s", pdfx.Show(t0["DescendantFonts"]))
	}
	cid := d.Dict(df[0])
	if cid == nil || cid["Subtype"] != pdfx.Name("CIDFontType2") {
		return bad("descendant font %s", cutS(pdfx.Show(cid)))
	}
	if m, ok := cid["CIDToGIDMap"]; ok && m != pdfx.Name("Identity") {
		return bad("/CIDToGIDMap %s", pdfx.Show(m))
	}
	if si, ok := d.Resolve(cid["CIDSystemInfo"]).(pdfx.Dict); !ok {
		return bad("no /CIDSystemInfo")
	} else if si["Registry"] != pdfx.Str("Adobe") || si["Ordering"] != pdfx.Str("Identity") {
		return bad("/CIDSystemInfo %s", cutS(pdfx.Show(si)))
	}
	if n, ok := cid["DW"].(pdfx.Num); ok {
		fa.dw = n.V
	}
	wa, _ := d.Resolve(cid["W"]).(pdfx.Arr)
	for i := 0; i < len(wa); {
		c, ok := wa[i].(pdfx.Num)
		if !ok || i+1 >= len(wa) {
			return bad("/W %s", cutS(pdfx.Show(wa)))
		}
		if l, ok := d.Resolve(wa[i+1]).(pdfx.Arr); ok {
			for k, e := range l {
				if n, ok := e.(pdfx.Num); ok {
					fa.widths[int(c.V)+k] = n.V
				}
			}
			i += 2
			continue
		}
		c2, ok2 := wa[i+1].(pdfx.Num)
		if !ok2 || i+2 >= len(wa) {
			return bad("/W %s", cutS(pdfx.Show(wa)))
		}
		w, ok3 := wa[i+2].(pdfx.Num)
		if !ok3 {
			return bad("/W %s", cutS(pdfx.Show(wa)))
		}
		for g := int(c.V); g <= int(c2.V); g++ {
			fa.widths[g] = w.V
		}
		i += 3
	}
	fd := d.Dict(cid["FontDescriptor"])
	if fd == nil || fd["Type"] != pdfx.Name("FontDescriptor") {
		return bad("no /FontDescriptor")
	}
	if t0["BaseFont"] != cid["BaseFont"] || fd["FontName"] != t0["BaseFont"] {
		return bad("font names differ: %s, %s, %s", pdfx.Show(t0["BaseFont"]), pdfx.Show(cid["BaseFont"]), pdfx.Show(fd["FontName"]))
	}
	fa.fd = fd
	ff, ok := d.Resolve(fd["FontFile2"]).(*pdfx.Stream)
	if !ok {
		return bad("no /FontFile2")
	}
	fb, err := d.Decode(ff)
	if err != nil {
		return bad("font program: %v", err)
	}
	if n, ok := d.Resolve(ff.D["Length1"]).(pdfx.Num); !ok || int(n.V) != len(fb) {
		return bad("/Length1 is %s, the font program has %d bytes", pdfx.Show(ff.D["Length1"]), len(fb))
	}
	fa.sub, err = fontx.Parse(fb, true)
	if err != nil {
		return bad("font program: %v", err)
	}
	tu, ok := d.Resolve(t0["ToUnicode"]).(*pdfx.Stream)
	if !ok {
		return bad("no /ToUnicode")
	}
	ub, err := d.Decode(tu)
	if err != nil {
		return bad("/ToUnicode: %v", err)
	}
	if err := readToUnicode(ub, fa.toUni); err != nil {
		return bad("/ToUnicode: %v", err)
	}
	return fa
}

func utf16s(s pdfx.Str) []rune {
	var out []rune
	for i := 0; i+1 < len(s); i += 2 {
		v := rune(s[i])<<8 | rune(s[i+1])
		if v >= 0xd800 && v < 0xdc00 && i+3 < len(s) {
			lo := rune(s[i+2])<<8 | rune(s[i+3])
			v = 0x10000 + (v-0xd800)<<10 + (lo - 0xdc00)
			i += 2
		}
		out = append(out, v)
	}
	return out
}

func readToUnicode(b []byte, m map[int][]rune) error {
	l := &pdfx.Lexer{B: b}
	var args []pdfx.Obj
	code := func(s pdfx.Str) int {
		v := 0
		for i := 0; i < len(s); i++ {
			v = v<<8 | int(s[i])
		}
		return v
	}
	var spaces [][3]int
	count := -1
	counted := func(per int) error {
		if count >= 0 && count*per != len(args) {
			return fmt.Errorf("%d operands in a list of %d entries", len(args), count)
		}
		count = -1
		return nil
	}
	for {
		l.Skip()
		if l.P >= len(b) {
			for c := range m {
				in := false
				for _, s := range spaces {
					in = in || s[0] <= c && c <= s[1]
				}
				if !in {
					return fmt.Errorf("code %04x is outside of the code space", c)
				}
			}
			return nil
		}
		o, err := l.Object(false)
		if err != nil {
			return err
		}
		k, ok := o.(pdfx.Kw)
		if !ok {
			args = append(args, o)
			continue
		}
		switch k {
		case "begincodespacerange", "beginbfchar", "beginbfrange":
			if len(args) == 1 {
				if n, ok := args[0].(pdfx.Num); ok {
					count = int(n.V)
				}
			}
		case "endcodespacerange":
			if err := counted(2); err != nil {
				return err
			}
			for i := 0; i+1 < len(args); i += 2 {
				a, ok1 := args[i].(pdfx.Str)
				z, ok2 := args[i+1].(pdfx.Str)
				if !ok1 || !ok2 || len(a) != len(z) {
					return fmt.Errorf("codespacerange operands")
				}
				spaces = append(spaces, [3]int{code(a), code(z), len(a)})
			}
		case "endbfchar":
			if err := counted(2); err != nil {
				return err
			}
			if len(args)%2 != 0 {
				return fmt.Errorf("bfchar with %d operands", len(args))
			}
			for i := 0; i < len(args); i += 2 {
				a, ok1 := args[i].(pdfx.Str)
				u, ok2 := args[i+1].(pdfx.Str)
				if !ok1 || !ok2 {
					return fmt.Errorf("bfchar operands")
				}
				m[code(a)] = utf16s(u)
			}
		case "endbfrange":
			if err := counted(3); err != nil {
				return err
			}
			if len(args)%3 != 0 {
				return fmt.Errorf("bfrange with %d operands", len(args))
			}
			for i := 0; i < len(args); i += 3 {
				a, ok1 := args[i].(pdfx.Str)
				z, ok2 := args[i+1].(pdfx.Str)
				if !ok1 || !ok2 {
					return fmt.Errorf("bfrange operands")
				}
				switch u := args[i+2].(type) {
				case pdfx.Str:
					rs := utf16s(u)
					for c := code(a); c <= code(z); c++ {
						r2 := append([]rune(nil), rs...)
						if len(r2) > 0 {
							r2[len(r2)-1] += rune(c - code(a))
						}
						m[c] = r2
					}
				case pdfx.Arr:
					for j, e := range u {
						if s, ok := e.(pdfx.Str); ok {
							m[code(a)+j] = utf16s(s)
						}
					}
				}
			}
		}
		args = nil
	}
}

// glyph says what is wrong with a glyph that stands for a character.
func (fa *fontA) glyph(fm *fontM, r rune, gid int) string {
	f := fm.f
	want := f.Gid(r)
	if gid != want {
		// another glyph with the same outline would do
		if gid >= fa.sub.NGlyphs || !bytes.Equal(fa.sub.Glyph(gid), f.Glyph(want)) {
			return fmt.Sprintf("shows glyph %d, the font has %q as glyph %d", gid, r, want)
		}
	}
	ck := fmt.Sprint(fm.name, " ", gid)
	if m, ok := fa.checked[ck]; ok && m != "" {
		return m
	} else if !ok {
		m := fa.sub.Same(f)
		if m == "" {
			m = fa.descriptor(f)
		}
		for _, g := range f.Closure(want) {
			if m != "" {
				break
			}
			if g >= fa.sub.NGlyphs {
				m = fmt.Sprintf("glyph %d of %q is not in the embedded font (%d glyphs)", g, r, fa.sub.NGlyphs)
				break
			}
			if a, b := fa.sub.Glyph(g), f.Glyph(g); !bytes.Equal(bytes.TrimRight(a, "\x00"), bytes.TrimRight(b, "\x00")) {
				m = fmt.Sprintf("outline of glyph %d of %q: %d bytes in the font, %d embedded", g, r, len(b), len(a))
				break
			}
		}
		if m == "" {
			w, ok := fa.widths[gid]
			if !ok {
				w = fa.dw
			}
			if math.Abs(w-float64(f.Width(want))) > 1.01 {
				m = fmt.Sprintf("width of glyph %d of %q is %v, not %d", gid, r, w, f.Width(want))
			}
			// metrics in the embedded program
			if math.Abs(float64(fa.sub.Width(gid)-f.Width(want))) > 1.01 {
				m = fmt.Sprintf("width of glyph %d of %q in the font program is %d, not %d", gid, r, fa.sub.Width(gid), f.Width(want))
			}
		}
		fa.checked[ck] = m
		if m != "" {
			return m
		}
	}
	us := fa.toUni[gid]
	if len(us) != 1 || f.Gid(us[0]) != want {
		return fmt.Sprintf("glyph %d of %q decodes to %q", gid, r, string(us))
	}
	return ""
}

// descriptor says what in the font descriptor is not from the font.
func (fa *fontA) descriptor(f *fontx.Font) string {
	num := func(o pdfx.Obj) float64 {
		n, ok := o.(pdfx.Num)
		if !ok {
			return math.NaN()
		}
		return n.V
	}
	sc := func(v int) float64 { return float64(v) * 1000 / float64(f.Upem) }
	bb, _ := fa.fd["FontBBox"].(pdfx.Arr)
	if len(bb) != 4 {
		return fmt.Sprintf("/FontBBox %s", pdfx.Show(fa.fd["FontBBox"]))
	}
	for i, e := range bb {
		if !near(num(e), sc(f.BBox[i]), 1.01) {
			return fmt.Sprintf("/FontBBox %s, not %v of %d", pdfx.Show(bb), f.BBox, f.Upem)
		}
	}
	oneOf := func(key string, vs ...int) string {
		for _, v := range vs {
			if near(num(fa.fd[pdfx.Name(key)]), sc(v), 1.01) {
				return ""
			}
		}
		return fmt.Sprintf("/%s %s, not one of %v of %d", key, pdfx.Show(fa.fd[pdfx.Name(key)]), vs, f.Upem)
	}
	if m := oneOf("Ascent", f.Ascs[:]...); m != "" {
		return m
	}
	if m := oneOf("Descent", f.Descs[:]...); m != "" {
		return m
	}
	if !near(num(fa.fd["ItalicAngle"]), float64(f.Italic), 1.01) {
		return fmt.Sprintf("/ItalicAngle %s, not %d", pdfx.Show(fa.fd["ItalicAngle"]), f.Italic)
	}
	fl := int(num(fa.fd["Flags"]))
	if (fl&4 != 0) == (fl&32 != 0) {
		return fmt.Sprintf("/Flags %d", fl)
	}
	return ""
}

// ---- images ----

func checkImg(d *pdfx.Doc, o pdfx.Obj, px *gen.Pix) string {
	s, ok := d.Resolve(o).(*pdfx.Stream)
	if !ok || s.D["Subtype"] != pdfx.Name("Image") {
		return fmt.Sprintf("not an image: %s", cutS(pdfx.Show(d.Resolve(o))))
	}
	w, _ := d.Resolve(s.D["Width"]).(pdfx.Num)
	h, _ := d.Resolve(s.D["Height"]).(pdfx.Num)
	if int(w.V) != px.W || int(h.V) != px.H {
		return fmt.Sprintf("image is %vx%v, not %dx%d", w.V, h.V, px.W, px.H)
	}
	bpc := 0
	if n, ok := d.Resolve(s.D["BitsPerComponent"]).(pdfx.Num); ok {
		bpc = int(n.V)
	}
	if bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 || px.JPEG != nil && bpc != 8 {
		return "/BitsPerComponent is " + pdfx.Show(s.D["BitsPerComponent"])
	}
	cs := d.Resolve(s.D["ColorSpace"])
	if px.JPEG != nil {
		f := d.Resolve(s.D["Filter"])
		if a, ok := f.(pdfx.Arr); ok && len(a) == 1 {
			f = a[0]
		}
		if f != pdfx.Name("DCTDecode") {
			return "filter of the JPEG is " + pdfx.Show(f)
		}
		if !bytes.Equal(s.Raw, px.JPEG) {
			return "the JPEG data differs from the file"
		}
		want := pdfx.Name("DeviceRGB")
		if px.Comps == 1 {
			want = "DeviceGray"
		} else if px.Comps == 4 {
			want = "DeviceCMYK"
		}
		if cs != want {
			return "colour space of the JPEG is " + pdfx.Show(cs)
		}
		if px.Comps == 4 { // Adobe's files are inverted
			dec, _ := d.Resolve(s.D["Decode"]).(pdfx.Arr)
			if pdfx.Show(dec) != pdfx.Show(pdfx.Arr{pdfx.Num{V: 1}, pdfx.Num{V: 0}, pdfx.Num{V: 1}, pdfx.Num{V: 0}, pdfx.Num{V: 1}, pdfx.Num{V: 0}, pdfx.Num{V: 1}, pdfx.Num{V: 0}}) {
				return "/Decode of the CMYK JPEG is " + pdfx.Show(dec)
			}
		} else if dec, ok := s.D["Decode"]; ok {
			return "/Decode of the JPEG is " + pdfx.Show(dec)
		}
		if s.D["SMask"] != nil || s.D["Mask"] != nil {
			return "a JPEG has a mask"
		}
		return ""
	}
	b, err := d.Decode(s)
	if err != nil {
		return "image data: " + err.Error()
	}
	if dec, ok := s.D["Decode"]; ok {
		return "/Decode is " + pdfx.Show(dec)
	}
	// samples, one byte each
	comps := 1
	if cs == pdfx.Name("DeviceRGB") {
		comps = 3
	}
	if row := (px.W*comps*bpc + 7) / 8; len(b) != row*px.H {
		return fmt.Sprintf("image data has %d bytes, not %d", len(b), row*px.H)
	} else if bpc < 8 {
		var u []byte
		for y := 0; y < px.H; y++ {
			for x := 0; x < px.W*comps; x++ {
				u = append(u, b[y*row+x*bpc/8]>>uint(8-bpc-x*bpc%8)&(1<<uint(bpc)-1))
			}
		}
		b = u
	}
	smp := b
	if _, ok := cs.(pdfx.Name); ok && bpc < 8 {
		b = append([]byte(nil), b...)
		for i := range b {
			b[i] = byte(int(b[i]) * 255 / (1<<uint(bpc) - 1))
		}
	}
	var rgb []byte
	switch v := cs.(type) {
	case pdfx.Name:
		switch {
		case v == "DeviceRGB" && px.Comps == 3, v == "DeviceGray" && px.Comps == 1:
			rgb = b
		case v == "DeviceRGB" && px.Comps == 1:
			for i := 0; i+2 < len(b); i += 3 {
				if b[i] != b[i+1] || b[i] != b[i+2] {
					return "a gray image has colour"
				}
				rgb = append(rgb, b[i])
			}
		default:
			return "colour space is " + pdfx.Show(cs)
		}
	case pdfx.Arr:
		if len(v) != 4 || v[0] != pdfx.Name("Indexed") || d.Resolve(v[1]) != pdfx.Name("DeviceRGB") {
			return "colour space is " + pdfx.Show(cs)
		}
		var pal []byte
		switch p := d.Resolve(v[3]).(type) {
		case pdfx.Str:
			pal = []byte(p)
		case *pdfx.Stream:
			pal, err = d.Decode(p)
			if err != nil {
				return "palette: " + err.Error()
			}
		}
		hi, _ := d.Resolve(v[2]).(pdfx.Num)
		if hi.V > 255 || len(pal) < 3*(int(hi.V)+1) {
			return fmt.Sprintf("the palette has %d bytes, its highest index is %v", len(pal), hi.V)
		}
		for _, x := range b {
			if int(x) > int(hi.V) || 3*int(x)+3 > len(pal) {
				return fmt.Sprintf("pixel %d is beyond the palette of %d", x, len(pal)/3)
			}
			rgb = append(rgb, pal[3*int(x):3*int(x)+3]...)
		}
	default:
		return "colour space is " + pdfx.Show(cs)
	}
	if !bytes.Equal(rgb, px.Data) {
		return fmt.Sprintf("pixels differ from the file (%d bytes, %d expected)", len(rgb), len(px.Data))
	}
	opaque := true
	for _, a := range px.Alpha {
		opaque = opaque && a == 255
	}
	sm, has := s.D["SMask"]
	if mk, ok := s.D["Mask"]; ok && !has {
		// colour key
		a, _ := d.Resolve(mk).(pdfx.Arr)
		if len(a) != 2*comps {
			return "/Mask is " + pdfx.Show(mk)
		}
		for i := 0; i < px.W*px.H; i++ {
			al := byte(0)
			for c := 0; c < comps; c++ {
				lo, ok1 := a[2*c].(pdfx.Num)
				hi, ok2 := a[2*c+1].(pdfx.Num)
				if !ok1 || !ok2 {
					return "/Mask is " + pdfx.Show(mk)
				}
				if v := float64(smp[i*comps+c]); v < lo.V || v > hi.V {
					al = 255
				}
			}
			want := byte(255)
			if px.Alpha != nil {
				want = px.Alpha[i]
			}
			if al != want {
				return fmt.Sprintf("transparency of pixel %d differs from the file", i)
			}
		}
		return ""
	}
	if !has {
		if !opaque {
			return "transparency is lost"
		}
		return ""
	}
	ms, ok := d.Resolve(sm).(*pdfx.Stream)
	if !ok {
		return "/SMask is not a stream"
	}
	mw, _ := d.Resolve(ms.D["Width"]).(pdfx.Num)
	mh, _ := d.Resolve(ms.D["Height"]).(pdfx.Num)
	if int(mw.V) != px.W || int(mh.V) != px.H || d.Resolve(ms.D["ColorSpace"]) != pdfx.Name("DeviceGray") || ms.D["Subtype"] != pdfx.Name("Image") {
		return "soft mask: " + cutS(pdfx.Show(ms.D))
	}
	mb, err := d.Decode(ms)
	if err != nil {
		return "soft mask: " + err.Error()
	}
	if px.Alpha == nil {
		for _, a := range mb {
			if a != 255 {
				return "an opaque image has a soft mask"
			}
		}
		return ""
	}
	if !bytes.Equal(mb, px.Alpha) {
		return "transparency differs from the file"
	}
	return ""
}

// ---- the whole document ----

type expect struct {
	T       *pdfx.Doc
	pages   []pageM
	marks   []markX // in call order
	protect *protM
}

type protM struct {
	user, owner []byte
	perm        int
	ownerSet    bool
}

// openOut reads a saved file as a reader would (with the password).
func openOut(b []byte, p *protM, l *viols) *pdfx.Doc {
	d := pdfx.Parse(b)
	for _, m := range d.Problems {
		l.add("struct", "%s", m)
	}
	if len(d.Problems) > 0 {
		return nil
	}
	if p == nil {
		if d.Encrypt != nil {
			l.add("protect", "document is encrypted though no protection was asked for")
			return nil
		}
		return d
	}
	if d.Encrypt == nil {
		l.add("protect", "protection was asked for but the document is not encrypted")
		return nil
	}
	key, err := d.UserKey(p.user)
	if err != nil {
		l.add("protect", "%v", err)
		return nil
	}
	if p.ownerSet && !bytes.Equal(d.OwnerOpens(p.owner), pdfx.PadPw(p.user)) {
		l.add("protect", "the owner password does not open the document")
	}
	pv, _ := d.Encrypt["P"].(pdfx.Num)
	got := uint32(int32(int64(pv.V)))
	for _, bit := range []uint32{4, 8, 16, 32} {
		if (got&bit != 0) != (uint32(p.perm)&bit != 0) {
			l.add("protect", "permission %d: asked %v, /P is %d", bit, uint32(p.perm)&bit != 0, int32(got))
		}
	}
	if got&0xffffffc0 != 0xffffffc0 || got&3 != 0 {
		l.add("protect", "/P is %d: reserved bits", int32(got))
	}
	dd := d.Decrypt(key)
	for _, m := range dd.Problems {
		l.add("protect", "decrypted: %s", m)
	}
	if len(dd.Problems) > 0 {
		return nil
	}
	return dd
}

// newDups: dictionaries with a key twice, where the template has none such
func newDups(O, T *pdfx.Doc, l *viols) {
	have := map[string]bool{}
	if T != nil {
		for _, k := range T.Dups {
			have[k] = true
		}
	}
	for _, k := range O.Dups {
		if !have[k] {
			l.add("struct", "a dictionary has the key /%s twice", k)
			return
		}
	}
}

func checkDoc(b []byte, e expect) []Viol {
	l := &viols{}
	O := openOut(b, e.protect, l)
	if O == nil {
		return l.v
	}
	T := e.T
	newDups(O, T, l)
	if len(O.Dangling) > 0 {
		// references that dangle in the template already are not the
		// library's doing; count them by place
		have := map[string]int{}
		for _, s := range T.Dangling {
			have[lastKey(s)]++
		}
		for _, s := range O.Dangling {
			k := lastKey(s)
			if have[k] > 0 {
				continue
			}
			l.add("struct", "reference to an object that does not exist: %s", s)
		}
	}
	if len(O.Pages) != len(e.pages) {
		l.add("pages", "the document has %d pages, expected %d", len(O.Pages), len(e.pages))
		return l.v
	}
	c := &cmpT{T: T, O: O, l: l, m: map[int]int{}, ext: map[int]bool{}, visited: map[[2]string]bool{}, pageT: map[int]int{}, pageO: map[int]int{}}
	for i, p := range T.Pages {
		c.pageT[p.N] = i
		c.pageO[i] = -1
		if r, ok := p.Inh["Resources"].(pdfx.Ref); ok {
			c.ext[r.N] = true
		}
		rd := T.Dict(p.Inh["Resources"])
		for _, k := range []pdfx.Name{"Font", "XObject"} {
			if r, ok := rd[k].(pdfx.Ref); ok {
				c.ext[r.N] = true
			}
		}
	}
	for i, p := range e.pages {
		if !p.dup {
			c.pageO[p.src] = O.Pages[i].N
		}
	}
	byPage := map[int][]markX{}
	for _, m := range e.marks {
		byPage[m.page] = append(byPage[m.page], m)
	}
	fonts := map[string]*fontA{}
	imgObjs := map[string]map[int]bool{}
	var tOpsCache = map[int][]pdfx.ContentOp{}
	tOps := func(i int) ([]pdfx.ContentOp, error) {
		if o, ok := tOpsCache[i]; ok {
			return o, nil
		}
		cs, err := T.Content(T.Pages[i])
		if err != nil {
			return nil, err
		}
		ops, err := pdfx.ContentOps(bytes.Join(cs, []byte("\n")))
		if err != nil {
			return nil, err
		}
		tOpsCache[i] = ops
		return ops, nil
	}
	for i, pm := range e.pages {
		op, tp := O.Pages[i], T.Pages[pm.src]
		path := fmt.Sprintf("page %d", i+1)
		cs, err := O.Content(op)
		if err != nil {
			l.add("tmpl", "%s: content: %v", path, err)
			continue
		}
		oops, err := pdfx.ContentOps(bytes.Join(cs, []byte("\n")))
		if err != nil {
			l.add("tmpl", "%s: content: %v", path, err)
			continue
		}
		tops, err := tOps(pm.src)
		if err != nil {
			continue // a template this oracle cannot read
		}
		tail, pre, wrap, diff := isPrefix(tops, oops)
		if diff != "" {
			// another page of the template?
			other := -1
			for j := range T.Pages {
				if jo, err := tOps(j); err == nil && j != pm.src && len(jo) > 0 {
					if _, _, _, d2 := isPrefix(jo, oops); d2 == "" {
						other = j
						break
					}
				}
			}
			if other >= 0 {
				l.add("pages", "page %d shows page %d of the template, expected page %d", i+1, other+1, pm.src+1)
			} else {
				l.add("tmpl", "%s (page %d of the template): content of the template is changed: %s", path, pm.src+1, diff)
				if len(tops) > 0 && among(tops, oops) { // all is there, with something else in between
					texts, imgs := 0, 0
					for _, m := range byPage[i+1] {
						if m.kind == "img" {
							imgs++
						} else {
							texts++
						}
					}
					if texts > 0 {
						l.add("text", "%s: something is drawn before the end of the template's content: %s", path, diff)
					}
					if imgs > 0 {
						l.add("image", "%s: something is drawn before the end of the template's content: %s", path, diff)
					}
				}
			}
			continue
		}
		// the dictionary
		skip := map[pdfx.Name]bool{"Parent": true, "Contents": true, "Resources": true, "MediaBox": true, "CropBox": true, "Rotate": true}
		c.dict(tp.D, op.D, path, false, skip)
		for _, k := range []pdfx.Name{"MediaBox", "CropBox", "Rotate"} {
			tv, ov := tp.Inh[k], op.Inh[k]
			if tv == nil && ov == nil {
				continue
			}
			if (tv == nil) != (ov == nil) {
				c.ne(path, "/%s was %s, is %s", k, pdfx.Show(tv), pdfx.Show(ov))
				continue
			}
			c2 := *c
			c2.m, c2.visited = map[int]int{}, map[[2]string]bool{}
			c2.eq(tv, ov, path+"/"+string(k))
		}
		c.resources(tp, op, path+"/Resources", nil, nil)
		checkMarks(O, op, i+1, wrap, pre, tail, byPage[i+1], fonts, imgObjs, l)
	}
	// the rest of the document
	skip := map[pdfx.Name]bool{"Pages": true}
	if tr, ok := T.Trailer["Root"].(pdfx.Ref); ok {
		if or, ok := O.Trailer["Root"].(pdfx.Ref); ok {
			c.m[tr.N] = or.N
		}
	}
	c.dict(T.Root, O.Root, "catalog", false, skip)
	tpn, opn := T.Dict(T.Root["Pages"]), O.Dict(O.Root["Pages"])
	c.dict(tpn, opn, "page tree root", false, map[pdfx.Name]bool{"Kids": true, "Count": true, "Resources": true, "MediaBox": true, "CropBox": true, "Rotate": true})
	if ti := T.Dict(T.Trailer["Info"]); ti != nil {
		oi := O.Dict(O.Trailer["Info"])
		if oi == nil {
			c.ne("document information", "is gone")
		} else {
			c.dict(ti, oi, "document information", false, nil)
		}
	}
	for _, k := range sortedStr(imgObjs) {
		if strings.HasPrefix(k, "cache ") && len(imgObjs[k]) > 1 {
			l.add("image", "an image inserted with cache is stored %d times", len(imgObjs[k]))
		}
	}
	return l.v
}

func sortedStr(m map[string]map[int]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// lastKey: which key of a dictionary a dangling reference was found under
func lastKey(s string) string {
	if i := strings.Index(s, " -> "); i >= 0 {
		s = s[:i]
	}
	if i := strings.IndexByte(s, '/'); i >= 0 {
		return s[i:]
	}
	return s
}

func checkMarks(O *pdfx.Doc, op pdfx.Page, pn int, wrap int, pre, tail []pdfx.ContentOp, want []markX, fonts map[string]*fontA, imgObjs map[string]map[int]bool, l *viols) {
	d := readMarks(wrap, pre, tail)
	for _, o := range d.odd {
		l.add("text", "page %d: unexpected in the added content: %s", pn, o)
	}
	for _, o := range d.oddImg {
		l.add("image", "page %d: image: %s", pn, o)
	}
	res := O.Dict(op.Inh["Resources"])
	fontD, xobjD := O.Dict(res["Font"]), O.Dict(res["XObject"])
	var wm []markX
	var rects [][7]float64
	var lines [][4]float64
	for _, m := range want {
		if m.kind == "img" || len(m.glyphs) > 0 {
			wm = append(wm, m)
		}
		for _, r := range m.rects {
			rects = append(rects, [7]float64{r[0], r[1], r[2], r[3], m.col[0], m.col[1], m.col[2]})
		}
		lines = append(lines, m.lines...)
	}
	nt, ni, at, ai := 0, 0, 0, 0
	for _, m := range wm {
		if m.kind == "text" {
			nt++
		} else {
			ni++
		}
	}
	for _, m := range d.marks {
		if m.kind == "text" {
			at++
		} else {
			ai++
		}
	}
	if nt != at {
		l.add("text", "page %d: %d texts were inserted, the page has %d", pn, nt, at)
	}
	if ni != ai {
		l.add("image", "page %d: %d images were inserted, the page has %d", pn, ni, ai)
	}
	if nt != at || ni != ai {
		return
	}
	for i, m := range wm {
		a := d.marks[i]
		what := fmt.Sprintf("page %d, mark %d (%s %.40q)", pn, i+1, m.kind, m.text)
		if a.kind != m.kind {
			l.add(m.kind, "%s: found %s there: order of insertion is not kept", what, a.kind)
			return
		}
		if m.kind == "img" {
			g := a.m
			if !near(g[0], m.w, .011) || !near(g[3], m.h, .011) || g[1] != 0 || g[2] != 0 || !near(g[4], m.x, .011) || !near(g[5], m.y, .011) {
				l.add("image", "%s: drawn with matrix %.2f, expected x=%.2f y=%.2f w=%.2f h=%.2f", what, g, m.x, m.y, m.w, m.h)
			}
			xo := xobjD[a.xobj]
			if xo == nil {
				l.add("image", "%s: no XObject /%s in the resources of the page", what, a.xobj)
				continue
			}
			if msg := checkImg(O, xo, m.img); msg != "" {
				l.add("image", "%s: %s", what, msg)
			}
			if r, ok := xo.(pdfx.Ref); ok && m.cached {
				k := "cache " + m.imgKey
				if imgObjs[k] == nil {
					imgObjs[k] = map[int]bool{}
				}
				imgObjs[k][r.N] = true
			}
			continue
		}
		if len(a.glyphs) != len(m.glyphs) {
			l.add("text", "%s: %d glyphs are shown, the text has %d characters", what, len(a.glyphs), len(m.glyphs))
			continue
		}
		if !near(a.x, m.x, .021) || !near(a.y, m.y, .021) {
			l.add("text", "%s: at (%.2f, %.2f), expected (%.2f, %.2f)", what, a.x, a.y, m.x, m.y)
		}
		if a.size != float64(m.size) {
			l.add("text", "%s: size %v, expected %d", what, a.size, m.size)
		}
		for k := range a.col {
			if !near(a.col[k], m.col[k], .0052) {
				l.add("text", "%s: colour %.2f, expected %.2f", what, a.col, m.col)
				break
			}
		}
		fo := fontD[a.font]
		if fo == nil {
			l.add("text", "%s: no font /%s in the resources of the page", what, a.font)
			continue
		}
		key := pdfx.Show(fo)
		fa := fonts[key]
		if fa == nil {
			fa = readFont(O, fo)
			fonts[key] = fa
		}
		if fa.err != "" {
			l.add("text", "%s: font /%s: %s", what, a.font, fa.err)
			continue
		}
		for k, g := range m.glyphs {
			if msg := fa.glyph(m.f, g.r, a.glyphs[k].gid); msg != "" {
				l.add("text", "%s: character %d: %s (font %s)", what, k+1, msg, m.f.name)
				break
			}
			if !near(a.glyphs[k].adj, float64(-g.kern), .51) {
				l.add("text", "%s: character %d: kerning %v, expected %d", what, k+1, a.glyphs[k].adj, -g.kern)
				break
			}
			if !near(a.glyphs[k].rise, g.rise, .0101) {
				l.add("text", "%s: character %d: rise %v, expected %v", what, k+1, a.glyphs[k].rise, g.rise)
				break
			}
		}
	}
	if len(rects) != len(d.rects) {
		l.add("text", "page %d: %d underlines, expected %d", pn, len(d.rects), len(rects))
	} else {
		for i := range rects {
			for k := range rects[i] {
				if !near(rects[i][k], d.rects[i][k], .031) {
					l.add("text", "page %d: underline %d is %.2f, expected %.2f", pn, i+1, d.rects[i], rects[i])
					break
				}
			}
		}
	}
	if len(lines) != len(d.lines) {
		l.add("text", "page %d: %d border lines, expected %d", pn, len(d.lines), len(lines))
	} else {
		for i := range lines {
			// the four lines of one cell may be drawn in any order
			g := i / 4 * 4
			ok := false
			for j := g; j < g+4 && j < len(d.lines); j++ {
				same := true
				for k := range lines[i] {
					same = same && near(lines[i][k], d.lines[j][k], .031)
				}
				ok = ok || same
			}
			if !ok {
				l.add("text", "page %d: border line %.2f is missing", pn, lines[i])
				break
			}
			// the line style goes to the first page only
			if y := d.styles[i]; pn == 1 && (!near(y.w, .1, .011) || y.dash != "[2 3]") {
				l.add("text", "page %d: border line is %v wide, dashes %s", pn, y.w, y.dash)
				break
			}
		}
	}
}

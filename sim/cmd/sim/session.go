package main

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/minigopdf/fontmaker/core"
	"github.com/signintech/pdft/render"
	"github.com/signintech/pdft/textbreak"

	"verif/sim/fontx"
	"verif/sim/gen"
	"verif/sim/pdfx"
)

// ---- inputs ----

type input struct {
	b          []byte
	sum        [16]byte
	doc        *pdfx.Doc
	f          *fontx.Font
	px         gen.Pix
	runes, all []rune // of the font
}

// inputs are immutable and kept for the process: the same description always
// gives the same bytes.
var inputs = map[string]*input{}
var inputKeys []string

const repoTest = "/repo/test/"

func getInput(key string, mk func() *input) *input {
	if in, ok := inputs[key]; ok {
		if md5.Sum(in.b) == in.sum {
			return in
		}
	}
	in := mk()
	in.sum = md5.Sum(in.b)
	inputs[key] = in
	inputKeys = append(inputKeys, key)
	if len(inputKeys) > 60 {
		delete(inputs, inputKeys[0])
		inputKeys = inputKeys[1:]
	}
	return in
}

func spec(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

func tmplInput(t *gen.Tmpl) *input {
	return getInput("T"+spec(t), func() *input {
		in := &input{}
		if t.File != "" {
			in.b, _ = os.ReadFile(repoTest + "pdf/" + t.File)
		} else {
			in.b = t.Make()
		}
		in.doc = pdfx.ParseTemplate(in.b)
		return in
	})
}

var corpusFonts = map[string]*input{}

func fontInput(f *FontSpec) *input {
	if f.File != "" {
		if in := corpusFonts[f.File]; in != nil && md5.Sum(in.b) == in.sum {
			return in
		}
		in := &input{}
		in.b, _ = os.ReadFile(repoTest + "ttf/" + f.File)
		in.f, _ = fontx.Parse(in.b, false)
		in.sum = md5.Sum(in.b)
		corpusFonts[f.File] = in
		return in
	}
	return getInput("F"+spec(f), func() *input {
		in := &input{b: fontx.Make(rand.New(rand.NewSource(int64(f.Seed))))}
		in.f, _ = fontx.Parse(in.b, false)
		return in
	})
}

func imgInput(i *gen.Img) *input {
	return getInput("I"+spec(i), func() *input {
		in := &input{}
		in.b, in.px = i.Make()
		return in
	})
}

type shared struct{ bufs map[string][]byte }

func newShared() *shared { return &shared{map[string][]byte{}} }

// ---- one session of the library and its model ----

type out struct {
	op    int
	b     []byte
	user  []byte // password
	canon string
}

type session struct {
	t     *task
	sh    *shared
	share bool
	p     *pdft.PDFt
	rd    *render.Render
	g     *gsession

	// model
	opened bool
	T      *pdfx.Doc
	pages  []pageM
	fonts  map[string]*fontM
	cur    string
	size   int
	style  string
	lw     float64
	marks  []markX
	prot   *protM
	fields map[string]Field
	brk    int
	fm     *core.FontMaker
	nres   int

	outs []out
	last []byte
	res  []string // outcome of each call
	viol []Viol
	opi  int
	opk  string
	dead bool
	hist uint64
}

func newSession(t *task, sh *shared, share bool) *session {
	return &session{t: t, sh: sh, share: share, p: &pdft.PDFt{}, fonts: map[string]*fontM{}}
}

func (s *session) bad(cat, f string, a ...interface{}) {
	if len(s.viol) < 10 {
		s.viol = append(s.viol, Viol{Cat: cat, Msg: fmt.Sprintf("call %d: ", s.opi+1) + fmt.Sprintf(f, a...), Op: s.opk})
	}
}

// buf: the bytes as the caller owns them: its own copy, or one it shares
// between all its goroutines.
func (s *session) buf(in *input, op Op) []byte {
	b := in.b
	if len(op.Damage) > 0 {
		b = damage(b, op.Damage)
		return b
	}
	if s.share && !op.Scribble {
		k := string(in.sum[:])
		if c, ok := s.sh.bufs[k]; ok {
			return c
		}
		c := append([]byte(nil), b...)
		s.sh.bufs[k] = c
		return c
	}
	return append([]byte(nil), b...)
}

func (s *session) after(op Op, what string, b, orig []byte) {
	if len(op.Damage) > 0 {
		orig = damage(orig, op.Damage)
	}
	if !bytes.Equal(b, orig) {
		s.bad("modified", "%s changed the caller's %s", op.K, what)
	}
	if op.Scribble {
		s.t.w.st.Faults["caller reuses its "+what]++
		for i := range b {
			b[i] ^= 0x5a
		}
	}
}

func (s *session) end() {}

func (s *session) step(i int, op Op) (cont bool) {
	s.opi = i
	s.opk = op.K
	s.t.opSteps = 0
	s.t.w.st.Ops[op.K]++
	s.hist = s.hist*1099511628211 ^ mix(op.K, op.Via, op.Bad, len(op.Faults), op.Page)
	defer func() {
		if r := recover(); r != nil {
			s.dead = true
			cont = false
			switch r.(type) {
			case hangT:
				s.res = append(s.res, "hang")
				s.bad("hang", "%s does not come back (more than %d steps)", op.K, hangSteps)
			case crashT:
				s.res = append(s.res, "crash")
			default:
				s.res = append(s.res, "panic")
				s.bad("panic", "%s panics: %v%s", op.K, r, where())
			}
		}
	}()
	n := len(s.res)
	s.do(op)
	if len(s.res) == n {
		s.res = append(s.res, "ok")
	}
	return true
}

// where finds the line of the library that panicked.
func where() string {
	pcs := make([]uintptr, 40)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "signintech/pdft") && !strings.Contains(f.Function, "simhook") {
			return fmt.Sprintf(" (in %s)", f.Function)
		}
		if !more {
			return ""
		}
	}
}

// outcome judges the error of a call.
func (s *session) outcome(op Op, err error, want bool, why string) bool {
	if err != nil {
		s.res = append(s.res, "error")
	} else {
		s.res = append(s.res, "ok")
	}
	if want && err == nil {
		s.bad("noerr", "%s returns no error: %s", op.K, why)
	}
	if !want && err != nil {
		s.bad("err", "%s fails: %v", op.K, err)
	}
	return err == nil
}

func (s *session) color(op Op) *pdft.FontColor {
	if op.Col == nil {
		return nil
	}
	return &pdft.FontColor{R: op.Col[0], G: op.Col[1], B: op.Col[2]}
}

func (s *session) pageHeight(n int) float64 {
	if s.T != nil && n >= 1 && n <= len(s.pages) {
		p := s.T.Pages[s.pages[n-1].src]
		if a, ok := s.T.Resolve(p.Inh["MediaBox"]).(pdfx.Arr); ok && len(a) == 4 {
			if v, ok := s.T.Resolve(a[3]).(pdfx.Num); ok {
				return v.V
			}
		}
	}
	return 841.89
}

func riseFn(kind int, l, r rune, size int, all string, idx int) float32 {
	switch kind {
	case 1:
		return 3.5
	case 2:
		return float32(idx%4) - 1.25
	}
	return float32((int(l)*7+int(r)*3+size+len(all))%11) / 2
}

func kernFn(kind int, l, r rune) int16 {
	switch kind {
	case 1:
		return -60
	case 2:
		return int16((int(l)*31+int(r)*17)%300 - 150)
	case 3: // more than an em
		return int16((int(l)*131+int(r)*717)%9000 - 3000)
	}
	return 0
}

// glyphs and width of a text in thousandths
func (s *session) shape(f *fontM, text string, size int) ([]glyphX, float64) {
	var out []glyphX
	sum := 0
	var left rune
	idx := 0
	for _, r := range text {
		g := glyphX{r: r, gid: f.f.Gid(r)}
		if idx > 0 && f.tab {
			v := f.f.Kern[[2]int{f.f.Gid(left), g.gid}]
			if f.kern > 0 {
				v = v/2 + int(kernFn(f.kern, left, r))
			}
			g.kern = v * 1000 / f.f.Upem
		} else if idx > 0 && f.kern > 0 {
			g.kern = int(kernFn(f.kern, left, r)) * 1000 / f.f.Upem
		}
		if f.rise > 0 {
			g.rise = float64(riseFn(f.rise, left, r, size, text, idx))
		}
		sum += f.f.Width(g.gid) + g.kern
		out = append(out, g)
		left = r
		idx++
	}
	return out, float64(sum) * float64(size) / 1000
}

func (s *session) textMark(text string, page int, x, y, w, h float64, align int, col *[3]int) markX {
	f := s.fonts[s.cur]
	gl, tw := s.shape(f, text, s.size)
	H := s.pageHeight(page)
	m := markX{kind: "text", page: page, f: f, size: s.size, glyphs: gl, text: text}
	up := float64(f.f.Upem)
	asc, desc := float64(f.f.Asc)/up*float64(s.size), float64(f.f.Desc)/up*float64(s.size)
	switch {
	case align&pdft.Right != 0:
		m.x = x + w - tw
	case align&pdft.Center != 0:
		m.x = x + w/2 - tw/2
	default:
		m.x = x
	}
	switch {
	case align&pdft.Bottom != 0:
		m.y = H - y - h - desc
	case align&pdft.Middle != 0:
		m.y = H - y - h/2 - (asc+desc)/2
	default:
		m.y = H - y - asc
	}
	if col != nil {
		for i := range m.col {
			m.col[i] = float64(uint8(col[i])) / 255
		}
	}
	if strings.Contains(strings.ToUpper(s.style), "U") {
		th := float64(f.f.UThick) / up * float64(s.size)
		top := H - (y - float64(f.f.UPos)/up*float64(s.size)) - 0.7*float64(s.size)
		m.rects = append(m.rects, [4]float64{x, top - th, w, th})
	}
	if s.lw > 0 {
		o := s.lw / 2
		t, b := H-y, H-y-h
		m.lines = [][4]float64{{x - o, t, x + w + o, t}, {x, t, x, b}, {x + w, t, x + w, b}, {x - o, b, x + w + o, b}}
	}
	return m
}

// breakers

type breaker struct {
	kind int
	n    *int
}

var errBreak = errors.New("breaker failed")

func (b breaker) BreakTextToToken(text string) ([]string, error) {
	if b.kind == 4 {
		return []string{"partial"}, errBreak
	}
	return tokens(b.kind, text), nil
}

func tokens(kind int, text string) []string {
	var out []string
	switch kind {
	case 1:
		tmp := ""
		for _, r := range text {
			if r == ' ' {
				out = append(out, tmp, " ")
				tmp = ""
			} else {
				tmp += string(r)
			}
		}
		if tmp != "" {
			out = append(out, tmp)
		}
	case 2:
		for _, r := range text {
			out = append(out, string(r), "")
		}
	case 3:
		rs := []rune(text)
		for len(rs) > 0 {
			n := 3
			if n > len(rs) {
				n = len(rs)
			}
			out = append(out, string(rs[:n]))
			rs = rs[n:]
		}
	}
	return out
}

func mkBreaker(kind int) textbreak.TextBreaker {
	switch kind {
	case 0:
		return nil
	case 1:
		return textbreak.BasicTextbreak{}
	}
	return breaker{kind: kind}
}

// wrapMarks is the reference for wrapped text.
func (s *session) wrapMarks(text string, page int, x, y, w, h float64, align int, col *[3]int, kind int) []markX {
	if kind == 0 {
		return []markX{s.textMark(text, page, x, y, w, h, align, col)}
	}
	f := s.fonts[s.cur]
	var lines []string
	cur, prev := "", ""
	for _, tk := range tokens(kind, text) {
		if tk == "" {
			continue
		}
		cur += tk
		if _, tw := s.shape(f, cur, s.size); tw > w {
			lines = append(lines, strings.TrimSpace(prev))
			cur = tk
		}
		prev = cur
	}
	if cur != "" {
		lines = append(lines, strings.TrimSpace(cur))
	}
	lh := 1.2 * float64(s.size)
	off := 0.0
	if align&pdft.Middle == pdft.Middle {
		off = float64(len(lines))*lh/2 - float64(s.size)/2
	}
	var ms []markX
	for i, l := range lines {
		ms = append(ms, s.textMark(l, page, x, y+float64(i)*lh-off, w, h, align, col))
	}
	return ms
}

// tie: a line would be as wide as the box, so that rounding decides whether
// it fits
func (s *session) tie(f *fontM, size int, text string, w float64, kind int) bool {
	if f == nil || kind == 0 {
		return false
	}
	cur := ""
	for _, tk := range tokens(kind, text) {
		_, tw := s.shape(f, cur+tk, size)
		if near(tw, w, .006) {
			return true
		}
		if cur += tk; tw > w {
			cur = tk
		}
	}
	return false
}

func (s *session) resetModel(doc *pdfx.Doc) {
	s.opened, s.T = true, doc
	s.pages = nil
	for i := range doc.Pages {
		s.pages = append(s.pages, pageM{src: i})
	}
	s.fonts = map[string]*fontM{}
	s.cur, s.size, s.style, s.lw = "", 0, "", 0
	s.marks = nil
}

func (s *session) closedModel() {
	s.opened, s.T, s.pages = false, nil, nil
	s.fonts = map[string]*fontM{}
	s.cur, s.size, s.style, s.lw = "", 0, "", 0
	s.marks = nil
}

func (s *session) do(op Op) {
	t := s.t
	st := t.w.st
	if strings.HasPrefix(op.K, "g") {
		s.gdo(op)
		return
	}
	switch op.K {
	case "mkfont":
		s.mkfont(op)
	case "open", "openlast":
		in := &input{}
		locked := false
		if op.K == "openlast" {
			if s.last == nil {
				return
			}
			in.b = s.last
			in.doc = pdfx.Parse(s.last)
			in.sum = md5.Sum(in.b)
			_, locked = in.doc.Trailer["Encrypt"]
		} else {
			in = tmplInput(op.Tmpl)
		}
		b := s.buf(in, op)
		if op.Via == "new" {
			s.p = &pdft.PDFt{}
			s.prot = nil
		}
		var err error
		hit := false
		switch op.Via {
		case "file":
			path := t.path("in.pdf")
			os.WriteFile(path, b, 0644)
			if op.Bad == "missing" {
				path = t.path("nosuch.pdf")
			}
			_, hit = t.disk(op.Faults, func() { err = s.p.Open(path) })
		default:
			r := newSimReader(b, op.Via, op.Chunk, op.Faults, st)
			err = s.p.OpenFrom(r)
			if sr, ok := r.(*simReader); ok {
				hit = sr.hit
			}
		}
		if len(op.Damage) > 0 && op.Bad == "" {
			// damaged: an error or a document, both are fine
			if err != nil {
				s.res = append(s.res, "error")
			} else {
				s.res = append(s.res, "ok")
				s.closedModel()
				s.opened = true
			}
			return
		}
		why := "the input could not be read"
		if locked {
			why = "the document is protected, its pages cannot be read without the key"
			st.Faults["template is protected"]++
		}
		ok := s.outcome(op, err, hit || locked || op.Bad != "", why)
		s.after(op, "template", b, in.b)
		if ok && !hit && !locked && op.Bad == "" {
			s.resetModel(in.doc)
		} else if ok || op.Via == "new" {
			s.closedModel()
		} // else what was open before is still open
	case "ropen":
		in := tmplInput(op.Tmpl)
		path := t.path("form.pdf")
		os.WriteFile(path, in.b, 0644)
		if op.Bad == "missing" {
			path = t.path("nosuch.pdf")
		}
		var fis render.FieldInfos
		s.fields = map[string]Field{}
		for _, f := range op.Fields {
			fis = append(fis, render.FieldInfo{Key: f.Key, PageNum: f.Page, X: f.X, Y: f.Y, W: f.W, H: f.H, Align: f.Align, Font: f.Font, Size: f.Size, IsWrapText: f.Wrap})
			s.fields[f.Key] = f
		}
		fcopy := append(render.FieldInfos(nil), fis...)
		var rd *render.Render
		var err error
		_, hit := t.disk(op.Faults, func() { rd, err = render.NewRender(path, fis) })
		ok := s.outcome(op, err, hit || op.Bad != "", "the form could not be read")
		for i := range fis {
			if fis[i] != fcopy[i] {
				s.bad("modified", "NewRender changed the caller's field list")
				break
			}
		}
		if op.Scribble {
			st.Faults["caller reuses its field list"]++
			for i := range fis {
				fis[i] = render.FieldInfo{Key: "zzz"}
			}
		}
		if ok {
			s.rd = rd
			s.p = &rd.PDFt
			s.prot = nil
			s.brk = 0
			s.resetModel(in.doc)
		} else {
			s.closedModel()
		}
	case "rbreaker":
		s.rd.SetTextBreaker(mkBreaker(op.Kind))
		s.brk = op.Kind
	case "rtext":
		f, have := s.fields[op.Name]
		for have && f.Wrap && op.Bad == "" && s.tie(s.fonts[f.Font], f.Size, op.Text, f.W, s.brk) {
			rs := []rune(op.Text)
			op.Text = string(rs[:len(rs)-1])
		}
		err := s.rd.Text(op.Name, op.Text)
		want := have && s.fonts[f.Font] == nil
		if have && !want && op.Bad == "glyph" {
			s.outcome(op, err, true, "the font has not all characters")
			return
		}
		// Text selects the font first
		if have && !want {
			s.cur, s.size, s.style = f.Font, f.Size, ""
			if f.Wrap && s.brk == 4 {
				want = true
			}
		}
		why := "the field's font was not added"
		if s.brk == 4 {
			why = "the text breaker failed"
		}
		if s.outcome(op, err, want, why) && have && !want {
			if f.Wrap {
				s.marks = append(s.marks, s.wrapMarks(op.Text, f.Page, f.X, f.Y, f.W, f.H, f.Align, nil, s.brk)...)
			} else {
				s.marks = append(s.marks, s.textMark(op.Text, f.Page, f.X, f.Y, f.W, f.H, f.Align, nil))
			}
		}
	case "rimg":
		in := imgInput(op.Img)
		b64 := base64.StdEncoding.EncodeToString(s.buf(in, op))
		err := s.rd.ImgBase64(op.Name, b64)
		f, have := s.fields[op.Name]
		want := have && op.Bad != ""
		if s.outcome(op, err, want, "the image is damaged") && have && !want {
			H := s.pageHeight(f.Page)
			s.marks = append(s.marks, markX{kind: "img", page: f.Page, x: f.X, y: H - f.Y - f.H, w: f.W, h: f.H, img: &in.px, imgKey: string(in.sum[:])})
		}
	case "rdesign":
		s.rd.ShowDesignView()
		s.lw = 0.1
		var keys []string
		for k := range s.fields {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			f := s.fields[k]
			if s.fonts[f.Font] != nil {
				s.cur, s.size, s.style = f.Font, f.Size, ""
			}
			if s.fonts[s.cur] == nil {
				continue
			}
			s.marks = append(s.marks, s.textMark("#"+k, f.Page, f.X, f.Y, f.W, f.H, f.Align, nil))
		}
	case "addfont":
		in := fontInput(op.Font)
		b := s.buf(in, op)
		dup := s.fonts[op.Name] != nil
		var err error
		hit := false
		if op.Via == "file" {
			path := t.path("f.ttf")
			os.WriteFile(path, b, 0644)
			if op.Bad == "missing" {
				path = t.path("nosuch.ttf")
			}
			_, hit = t.disk(op.Faults, func() { err = s.p.AddFont(op.Name, path) })
		} else {
			r := newSimReader(b, op.Via, op.Chunk, op.Faults, st)
			err = s.p.AddFontFrom(op.Name, r)
			if sr, ok := r.(*simReader); ok {
				hit = sr.hit
			}
		}
		if len(op.Damage) > 0 && op.Bad == "" {
			if err != nil {
				s.res = append(s.res, "error")
			} else {
				s.res = append(s.res, "ok")
				s.fonts[op.Name] = &fontM{name: op.Name, f: in.f}
			}
			return
		}
		ok := s.outcome(op, err, dup || hit || op.Bad != "", "the font is damaged, could not be read, or the name is taken")
		s.after(op, "font", b, in.b)
		if ok && !dup && !hit && op.Bad == "" {
			s.fonts[op.Name] = &fontM{name: op.Name, f: in.f}
		}
	case "setfont":
		err := s.p.SetFont(op.Name, op.Style, op.Size)
		if s.outcome(op, err, s.fonts[op.Name] == nil, "there is no font of that name") && s.fonts[op.Name] != nil {
			s.cur, s.style, s.size = op.Name, op.Style, op.Size
		}
	case "border":
		s.p.ShowCellBorder(op.On)
		s.lw = 0
		if op.On {
			s.lw = 0.1
		}
	case "kern":
		err := s.p.KernOverride(op.Name, func(l, r rune, lp, rp uint, v int16) int16 { return kernFn(op.Kind, l, r) })
		if s.outcome(op, err, s.fonts[op.Name] == nil, "there is no font of that name") && s.fonts[op.Name] != nil {
			s.fonts[op.Name].kern = op.Kind
		}
	case "rise":
		err := s.p.TextriseOverride(op.Name, func(l, r rune, sz int, all string, idx int) float32 {
			return riseFn(op.Kind, l, r, sz, all, idx)
		})
		if s.outcome(op, err, s.fonts[op.Name] == nil, "there is no font of that name") && s.fonts[op.Name] != nil {
			s.fonts[op.Name].rise = op.Kind
		}
	case "insert":
		col := s.color(op)
		err := s.p.Insert(op.Text, op.Page, op.X, op.Y, op.W, op.H, op.Align, col)
		if col != nil {
			if *col != *s.color(op) {
				s.bad("modified", "Insert changed the caller's colour")
			}
			if op.Scribble {
				st.Faults["caller reuses its colour"]++
				col.R, col.G, col.B = 200-col.R%100, 9, 77
			}
		}
		want := s.fonts[s.cur] == nil || op.Bad == "glyph"
		if s.outcome(op, err, want, "no font is set, or it lacks a character") && !want {
			s.marks = append(s.marks, s.textMark(op.Text, op.Page, op.X, op.Y, op.W, op.H, op.Align, op.Col))
		}
	case "wrap":
		for op.Bad == "" && s.tie(s.fonts[s.cur], s.size, op.Text, op.W, op.Kind) {
			op.W += .0137
		}
		col := s.color(op)
		err := s.p.InsertWrapText(op.Text, op.Page, op.X, op.Y, op.W, op.H, op.Align, col, mkBreaker(op.Kind))
		if col != nil && op.Scribble {
			st.Faults["caller reuses its colour"]++
			col.R, col.G, col.B = 200-col.R%100, 9, 77
		}
		want := s.fonts[s.cur] == nil && op.Text != "" || op.Kind == 4 || op.Bad == "glyph"
		if op.Kind == 4 && err != nil && !errors.Is(err, errBreak) {
			s.bad("noerr", "the error of the text breaker is not reported: %v", err)
		}
		if s.outcome(op, err, want, "no font is set, or the text breaker failed") && !want && s.fonts[s.cur] != nil {
			s.marks = append(s.marks, s.wrapMarks(op.Text, op.Page, op.X, op.Y, op.W, op.H, op.Align, op.Col, op.Kind)...)
		}
	case "measure":
		v, err := s.p.MeasureTextWidth(op.Text)
		want := s.fonts[s.cur] == nil || op.Bad == "glyph"
		if s.outcome(op, err, want, "no font is set, or it lacks a character") && !want {
			if _, tw := s.shape(s.fonts[s.cur], op.Text, s.size); !near(v, tw, .005+tw*1e-6) {
				s.bad("measure", "width of %.40q is %v, not %v", op.Text, v, tw)
			}
		}
	case "img":
		in := imgInput(op.Img)
		b := s.buf(in, op)
		var err error
		switch op.Via {
		case "base64":
			err = s.p.InsertImgBase64(base64.StdEncoding.EncodeToString(b), op.Page, op.X, op.Y, op.W, op.H)
		case "cache":
			err = s.p.InsertImgWithCache(b, op.Page, op.X, op.Y, op.W, op.H)
		default:
			err = s.p.InsertImg(b, op.Page, op.X, op.Y, op.W, op.H)
		}
		if len(op.Damage) > 0 && op.Bad == "" {
			if err != nil {
				s.res = append(s.res, "error")
			} else {
				s.res = append(s.res, "ok")
			}
			return
		}
		if s.outcome(op, err, op.Bad != "", "the image is damaged") && op.Bad == "" {
			H := s.pageHeight(op.Page)
			s.marks = append(s.marks, markX{kind: "img", page: op.Page, x: op.X, y: H - op.Y - op.H, w: op.W, h: op.H, img: &in.px, imgKey: string(in.sum[:]), cached: op.Via == "cache"})
		}
		if len(op.Damage) == 0 {
			s.after(op, "image", b, in.b)
		}
	case "dup":
		err := s.p.DuplicatePageAfter(op.Page, op.Pos)
		n := len(s.pages)
		pos := op.Pos
		if pos < 0 {
			pos += n
		}
		want := op.Page < 1 || op.Page > n || pos < 0 || pos >= n
		if !want {
			// what cannot be copied is refused
			if !s.copyable(s.pages[op.Page-1].src) {
				if err != nil {
					s.res = append(s.res, "error")
					return
				}
			}
		}
		if s.outcome(op, err, want, fmt.Sprintf("the document has %d pages", n)) && !want {
			c := s.pages[op.Page-1]
			c.dup = true
			np := append([]pageM(nil), s.pages[:pos+1]...)
			np = append(np, c)
			s.pages = append(np, s.pages[pos+1:]...)
		}
	case "rm":
		err := s.p.RemovePage(op.Page)
		want := op.Page < 1 || op.Page > len(s.pages)
		if s.outcome(op, err, want, fmt.Sprintf("the document has %d pages", len(s.pages))) && !want {
			s.pages = append(append([]pageM(nil), s.pages[:op.Page-1]...), s.pages[op.Page:]...)
		}
	case "rmother":
		err := s.p.RemoveOtherPages(op.Page)
		want := op.Page < 1 || op.Page > len(s.pages)
		if s.outcome(op, err, want, fmt.Sprintf("the document has %d pages", len(s.pages))) && !want {
			s.pages = []pageM{s.pages[op.Page-1]}
		}
	case "npages":
		n := s.p.GetNumberOfPage()
		if s.T != nil && n != len(s.pages) {
			s.bad("pages", "GetNumberOfPage is %d, expected %d", n, len(s.pages))
		}
	case "protect":
		u, o := s.pw(op.User), s.pw(op.Owner)
		ub, ob := full(u), full(o)
		ubc, obc := append([]byte(nil), ub...), append([]byte(nil), ob...)
		err := s.p.SetProtection(op.Perm, u, o)
		if !bytes.Equal(ub, ubc) || !bytes.Equal(ob, obc) {
			s.bad("modified", "SetProtection changed the caller's memory")
		}
		if op.Scribble {
			st.Faults["caller wipes its password"]++
			for i := range ub {
				ub[i] = 'x'
			}
			for i := range ob {
				ob[i] = 'y'
			}
		}
		if s.outcome(op, err, false, "") {
			s.prot = &protM{user: op.User, owner: op.Owner, perm: op.Perm, ownerSet: len(op.Owner) > 0}
		}
	case "save":
		s.save(op)
	default:
		panic("unknown call " + op.K)
	}
}

// pw gives a password as a slice of a larger buffer, as real callers do
func (s *session) pw(p []byte) []byte {
	if p == nil {
		return nil
	}
	b := make([]byte, 64)
	for i := range b {
		b[i] = byte(0xc0 + i)
	}
	copy(b, p)
	return b[:len(p)]
}

func full(b []byte) []byte { return b[:cap(b)] }

func (s *session) copyable(src int) bool {
	c, ok := s.T.Pages[src].D["Contents"]
	if !ok {
		return false
	}
	switch c.(type) {
	case pdfx.Ref, pdfx.Arr:
		return true
	}
	return false
}

func (s *session) expect() expect {
	return expect{T: s.T, pages: s.pages, marks: s.marks, protect: s.prot}
}

func (s *session) save(op Op) {
	t := s.t
	var b []byte
	var err error
	if s.T == nil { // nothing is open, or a damaged document: no promise but to come back
		err = s.p.SaveTo(&simWriter{faults: op.Faults, st: t.w.st})
		if err != nil {
			s.res = append(s.res, "error")
		}
		return
	}
	if op.Via == "file" {
		path := t.path("out.pdf")
		switch op.Name {
		case "longer": // an older, longer file is there
			os.WriteFile(path, bytes.Repeat([]byte("old content\n"), 60000), 0644)
		case "nodir":
			path = t.path("no/such/dir/out.pdf")
		case "isdir":
			path = t.path("")
		case "empty":
			os.WriteFile(path, nil, 0600)
		case "none":
			os.Remove(path)
		}
		before, _ := os.ReadFile(path)
		crashed, hit := t.disk(op.Faults, func() { err = s.p.Save(path) })
		if op.Name == "nodir" || op.Name == "isdir" {
			s.t.w.st.Faults["disk no such directory"]++
			hit = true
		}
		if crashed {
			s.res = append(s.res, "crash")
			s.afterCrash(path)
			return
		}
		if err == nil && (op.Name == "nodir" || op.Name == "isdir") {
			s.bad("noerr", "Save to a place that cannot exist returns no error")
			return
		}
		if err != nil && !hit {
			s.outcome(op, err, false, "")
			return
		}
		if err != nil {
			s.res = append(s.res, "error")
			if b, e := os.ReadFile(path); e == nil && !bytes.Equal(b, before) {
				s.torn(b)
			}
			return
		}
		// nil: the file must be the complete document whatever the disk did
		s.res = append(s.res, "ok")
		b, err = os.ReadFile(path)
		if err != nil {
			s.bad("lost", "Save returned no error and the file is not there: %v", err)
			return
		}
		if hit {
			s.bad("noerr", "Save returns no error though the disk failed (%s)", spec(op.Faults))
		}
		if left := leftovers(filepath.Dir(path)); left != "" {
			s.bad("lost", "Save leaves %s behind", left)
		}
	} else {
		w := &simWriter{faults: op.Faults, st: t.w.st}
		err = s.p.SaveTo(w)
		if !s.outcome(op, err, w.hit, "the writer failed") || w.hit {
			if err != nil && w.hit {
				s.torn(w.buf.Bytes())
			}
			return
		}
		b = w.buf.Bytes()
	}
	s.last = b
	o := out{op: s.opi, b: b}
	if s.prot != nil {
		o.user = s.prot.user
	}
	for _, v := range checkDoc(b, s.expect()) {
		s.bad(v.Cat, "%s", v.Msg)
	}
	s.outs = append(s.outs, o)
	t.w.st.Checked["saved documents"]++
	t.w.st.Checked["inserted marks"] += len(s.marks)
	t.w.st.Checked["pages"] += len(s.pages)
}

// torn: what a failed save left behind is the beginning of the document.
func (s *session) torn(part []byte) {
	if s.t.w.plan.Prop != "C07" {
		return
	}
	var w bytes.Buffer
	if err := s.p.SaveTo(&w); err != nil {
		s.bad("err", "save fails after a failed one: %v", err)
		return
	}
	if !bytes.HasPrefix(w.Bytes(), part) {
		s.bad("torn", "what a failed save left (%d bytes) is not the beginning of the document (%d bytes)", len(part), w.Len())
	}
	s.t.w.st.Checked["beginnings left by failed saves"]++
}

func (o *out) canonical() string {
	if o.canon == "" {
		d := pdfx.Parse(o.b)
		if len(d.Problems) > 0 {
			o.canon = fmt.Sprintf("broken %x %v", md5.Sum(o.b), d.Problems)
		} else {
			if d.Encrypt != nil {
				if key, err := d.UserKey(o.user); err == nil {
					d = d.Decrypt(key)
					delete(d.Trailer, "Encrypt")
					delete(d.Trailer, "ID")
				}
			}
			o.canon = d.Canon()
		}
	}
	return o.canon
}

func leftovers(dir string) string {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		switch e.Name() {
		case "in.pdf", "out.pdf", "f.ttf", "form.pdf":
		default:
			if !e.IsDir() {
				return e.Name()
			}
		}
	}
	return ""
}

// afterCrash: the process died while saving; a new one finds what is on disk.
func (s *session) afterCrash(path string) {
	s.closedModelKeep()
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var p pdft.PDFt
	if err := p.OpenFrom(bytes.NewReader(b)); err != nil {
		s.t.w.st.Checked["torn files refused"]++
		return
	}
	// it opens: then it must be a complete document, the old or the new one
	if bytes.HasPrefix(b, []byte("old content")) {
		s.bad("torn", "an unrelated file opens as a document")
		return
	}
	var w bytes.Buffer
	if err := p.SaveTo(&w); err != nil {
		return
	}
	if s.prot == nil {
		d := pdfx.ParseTemplate(w.Bytes())
		if len(d.Problems) > 0 || len(d.Pages) != len(s.pages) {
			s.bad("torn", "a file torn by a crash (%d bytes) opens as a document with %d pages %v, expected %d", len(b), len(d.Pages), d.Problems, len(s.pages))
			return
		}
		for _, v := range checkDoc(w.Bytes(), s.expect()) {
			s.bad("torn", "a file torn by a crash (%d bytes) opens, but as something else: %s", len(b), v.Msg)
			break
		}
	}
}

func (s *session) closedModelKeep() {
	// the crashed process is gone: its session cannot be used any more
	s.dead = true
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

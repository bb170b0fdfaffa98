package main

import (
	"math/rand"
	"strings"

	"github.com/signintech/pdft"

	"verif/sim/gen"
	"verif/sim/pdfx"
)

// bld writes the calls of one session. It keeps count of what the session
// will look like, so that every call that is meant to succeed is legitimate.
type bld struct {
	gfaults bool // the disk fails under WritePdf
	r       *rand.Rand
	ops     []Op
	doc     *pdfx.Doc
	src     []int // page -> page of the template
	maxIns  int
	fonts   []string
	specs   map[string]*FontSpec
	cur     string
	size    int
	nfont   int
	imgs    []gen.Img
	chunky  bool
	used    map[string]bool // fonts that text was written with
	owner   bool            // always give an owner password
	files   bool            // use paths now and then
	crowd   bool            // a lot of everything
	reuse   bool            // the same images again
	noowner bool            // generated documents: protected without owner password
	formbad bool            // forms: texts with missing characters
	deliv   bool            // generated documents: inputs come badly
	gbad    bool            // generated documents: calls that fail
	again   bool            // within the first of two generated documents
}

func newBld(r *rand.Rand) *bld {
	return &bld{r: r, specs: map[string]*FontSpec{}, used: map[string]bool{}}
}

func (b *bld) add(o Op) { b.ops = append(b.ops, o) }

func (b *bld) p(n int) bool { return b.r.Intn(n) == 0 }

var corpus = []string{"pdf_from_chrome_50_linux64.pdf", "pdf_from_chrome_50_win10.pdf", "pdf_from_delphi.pdf", "pdf_from_docx.pdf", "pdf_from_docx_with_f.pdf",
	"pdf_from_rdlc.pdf", "pdf_from_word2010.pdf", "pdf_from_word2010_b.pdf", "pdf_from_word2013.pdf", "pdf_from_word2013_b.pdf", "pdf_with_img.pdf"}

func (b *bld) tmpl(max int) *gen.Tmpl {
	if b.p(12) {
		return &gen.Tmpl{File: corpus[b.r.Intn(len(corpus))]}
	}
	if max > 2 && b.p(25) {
		max = 14
		if b.p(3) {
			max = 150
		}
	}
	t := gen.RandomTmpl(b.r, max)
	return &t
}

func (b *bld) open(t *gen.Tmpl) {
	o := Op{K: "open", Tmpl: t}
	if b.files && b.p(4) {
		o.Via = "file"
	} else if b.chunky && !b.p(4) {
		o.Chunk = b.r.Uint64()>>1 | 1
	}
	b.add(o)
	b.opened(tmplInput(t).doc)
}

func (b *bld) opened(d *pdfx.Doc) {
	b.doc = d
	b.src = nil
	for i := range d.Pages {
		b.src = append(b.src, i)
	}
	b.maxIns, b.fonts, b.cur, b.nfont, b.used = 0, nil, "", 0, map[string]bool{}
}

// reopened: the session opens what it saved
func (b *bld) reopened() {
	b.maxIns, b.fonts, b.cur, b.nfont, b.used = 0, nil, "", 0, map[string]bool{}
}

func (b *bld) fontSpec() *FontSpec {
	switch {
	case b.p(10):
		return &FontSpec{File: "Loma.ttf"}
	case b.p(25):
		return &FontSpec{File: []string{"angsa.ttf", "arial.ttf"}[b.r.Intn(2)]}
	}
	return &FontSpec{Seed: b.r.Uint64() >> 1}
}

var fontNames = []string{"a", "THSarabun", "loma bold", "F1", "z9", "b", "Font", "x(1)", "a/b", "[n] <f>", "ฟอนต์", "50% #1", "{p}"}

func (b *bld) font() {
	name := fontNames[(b.nfont*3+b.r.Intn(2)+b.r.Intn(2)*b.r.Intn(2)*7)%len(fontNames)]
	for _, n := range b.fonts {
		if n == name {
			return
		}
	}
	b.nfont++
	o := Op{K: "addfont", Name: name, Font: b.fontSpec()}
	if b.files && b.p(4) {
		o.Via = "file"
	} else if b.chunky && !b.p(4) {
		o.Chunk = b.r.Uint64()>>1 | 1
	}
	b.add(o)
	b.fonts = append(b.fonts, name)
	b.specs[name] = o.Font
}

func (b *bld) setfont() {
	if len(b.fonts) == 0 {
		b.font()
	}
	b.cur = b.fonts[b.r.Intn(len(b.fonts))]
	b.size = 1 + b.r.Intn(40)
	if b.p(15) {
		b.size = 200
	}
	o := Op{K: "setfont", Name: b.cur, Size: b.size}
	if b.p(4) {
		o.Style = "U"
		if b.p(2) {
			o.Style = []string{"u", "BU", "bu", "IU", "UI", "iu", "BIU", "B", "I", "bi"}[b.r.Intn(10)]
		}
	}
	b.add(o)
}

func runesOf(f *FontSpec) []rune {
	in := fontInput(f)
	if in.f == nil {
		return nil
	}
	if in.runes != nil {
		return in.runes
	}
	rs := in.f.Runes(120)
	if f.File != "" {
		for c := rune(0xe01); c < 0xe5b; c++ {
			if in.f.Gid(c) > 0 {
				rs = append(rs, c)
			}
		}
	}
	in.runes = rs
	return rs
}

// allRunes: thousands of them, when the font has so many
func allRunes(f *FontSpec) []rune {
	in := fontInput(f)
	if in.f == nil {
		return nil
	}
	if in.all == nil {
		in.all = in.f.Runes(5000)
	}
	return in.all
}

func (b *bld) text(font string, max int) string {
	rs := runesOf(b.specs[font])
	if b.p(8) {
		rs = allRunes(b.specs[font])
	}
	b.used[font] = true
	if len(rs) == 0 {
		return ""
	}
	if b.p(12) { // the same text with several fonts
		return []string{"AV To", "1", "hello", "x"}[b.r.Intn(4)]
	}
	n := b.r.Intn(max + 1)
	var s strings.Builder
	f := fontInput(b.specs[font]).f
	miss := b.p(15) // characters the font does not have show its glyph 0
	for i := 0; i < n; i++ {
		if c := rune(0x21 + b.r.Intn(0x3000)); miss && b.p(4) && f.Gid(c) == 0 {
			s.WriteRune(c)
			continue
		}
		s.WriteRune(rs[b.r.Intn(len(rs))])
	}
	return s.String()
}

// noGlyph: text that the font cannot write, with a character above U+FFFF
func (b *bld) noGlyph(font string) string {
	f := fontInput(b.specs[font]).f
	for k := 0; k < 20; k++ {
		c := rune(0x1F300 + b.r.Intn(300))
		if f.Gid(c) == 0 {
			return b.text(font, 5) + string(c) + b.text(font, 5)
		}
	}
	return ""
}

func (b *bld) coord() float64 {
	switch b.r.Intn(6) {
	case 0:
		return float64(b.r.Intn(700))
	case 1:
		return float64(b.r.Intn(100)) / 4
	case 2:
		if b.p(4) { // far away, or hardly there
			return []float64{1e6, 123456.78, -98765.43, 0.00001, -0.00001, 0.004, -0.25, 2345678.9, -14400, 1e-9}[b.r.Intn(10)]
		}
	}
	return float64(b.r.Intn(60000))/100 - 20
}

// side: of an image
func (b *bld) side() float64 {
	switch b.r.Intn(8) {
	case 0:
		return float64(1+b.r.Intn(30000)) / 100
	case 1:
		return []float64{0.02, 1, 5000.5, 1e5, 0.5, 1e6}[b.r.Intn(6)]
	}
	return float64(1 + b.r.Intn(300))
}

func (b *bld) align() int {
	a := 0
	a |= []int{0, pdft.Left, pdft.Center, pdft.Right}[b.r.Intn(4)]
	a |= []int{0, pdft.Top, pdft.Middle, pdft.Bottom}[b.r.Intn(4)]
	return a
}

func (b *bld) color() *[3]int {
	if b.p(2) {
		return nil
	}
	switch b.r.Intn(4) {
	case 0:
		return &[3]int{0, 0, 0}
	case 1:
		return &[3]int{255, 255, 255}
	}
	return &[3]int{b.r.Intn(256), b.r.Intn(256), b.r.Intn(256)}
}

func (b *bld) page() int {
	n := 1 + b.r.Intn(len(b.src))
	if n > b.maxIns {
		b.maxIns = n
	}
	return n
}

func (b *bld) insert() {
	if b.cur == "" {
		b.setfont()
	}
	t := b.text(b.cur, 12)
	if b.p(30) {
		t = b.text(b.cur, 150)
		if b.p(8) {
			t = b.text(b.cur, 6000)
		}
	}
	b.add(Op{K: "insert", Text: t, Page: b.page(), X: b.coord(), Y: b.coord(), W: float64(b.r.Intn(300)), H: float64(b.r.Intn(80)), Align: b.align(), Col: b.color()})
}

func (b *bld) wrap(kind int) {
	if b.cur == "" {
		b.setfont()
	}
	rs := runesOf(b.specs[b.cur])
	b.used[b.cur] = true
	var s strings.Builder
	words := b.r.Intn(12)
	if b.p(60) {
		words = 400
	}
	for w := words; w > 0 && len(rs) > 0; w-- {
		k := b.r.Intn(9)
		if b.p(3) {
			k = b.r.Intn(3)
		}
		for ; k > 0; k-- {
			s.WriteRune(rs[b.r.Intn(len(rs))])
		}
		if w > 1 || b.p(2) {
			s.WriteString(strings.Repeat(" ", 1+b.r.Intn(2)*b.r.Intn(2)))
		}
		if b.p(12) {
			s.WriteString([]string{"\n", "\t", "\u00a0", "-", "\r\n", "\u3000"}[b.r.Intn(6)])
		}
	}
	b.add(Op{K: "wrap", Kind: kind, Text: s.String(), Page: b.page(), X: b.coord(), Y: b.coord(), W: float64(1 + b.r.Intn(300)), H: float64(b.r.Intn(80)), Align: b.align(), Col: b.color()})
}

func (b *bld) img() *gen.Img {
	if len(b.imgs) > 0 && (b.p(3) || b.reuse && b.p(2)) {
		i := b.imgs[b.r.Intn(len(b.imgs))]
		if b.p(3) {
			i.Twist = 1 + b.r.Intn(1000)
		}
		return &i
	}
	i := gen.RandomImg(b.r)
	b.imgs = append(b.imgs, i)
	return &i
}

func (b *bld) image() {
	via := []string{"", "", "base64", "cache"}[b.r.Intn(4)]
	if b.reuse && b.p(2) {
		via = "cache"
	}
	b.add(Op{K: "img", Img: b.img(), Page: b.page(), Via: via, X: b.coord(), Y: b.coord(), W: b.side(), H: b.side()})
}

func (b *bld) copyable(p int) bool {
	c, ok := b.doc.Pages[b.src[p-1]].D["Contents"]
	if !ok {
		return false
	}
	switch c.(type) {
	case pdfx.Ref, pdfx.Arr:
		return true
	}
	return false
}

// pageOp: a page operation that must succeed. Inserted marks are addressed by
// the page number at the time of saving, so mostly pages behind them move.
func (b *bld) pageOp() {
	n := len(b.src)
	ins := b.maxIns
	if b.p(2) {
		ins = 0
	}
	switch b.r.Intn(5) {
	case 0, 1, 2: // duplicate
		tgt := ins + 1 + b.r.Intn(n)
		if tgt > n {
			tgt = n
		}
		pos := b.r.Intn(n)
		if pos+2 <= ins {
			pos = n - 1
		}
		if !b.copyable(tgt) || n > 12 && (!b.crowd || n > 200) {
			return
		}
		o := Op{K: "dup", Page: tgt, Pos: pos}
		if b.p(3) {
			o.Pos = pos - n
		}
		b.add(o)
		s := append([]int(nil), b.src[:pos+1]...)
		s = append(s, b.src[tgt-1])
		b.src = append(s, b.src[pos+1:]...)
	case 3:
		if n < 2 || ins >= n {
			return
		}
		k := ins + 1 + b.r.Intn(n-ins)
		b.add(Op{K: "rm", Page: k})
		b.src = append(append([]int(nil), b.src[:k-1]...), b.src[k:]...)
	case 4:
		if ins > 1 || !b.p(3) {
			return
		}
		k := 1
		if ins == 0 {
			k = 1 + b.r.Intn(n)
		}
		b.add(Op{K: "rmother", Page: k})
		b.src = []int{b.src[k-1]}
	}
}

// badOpen: an open that fails for sure
func (b *bld) badOpen() {
	o := Op{K: "open", Tmpl: b.tmpl(3)}
	switch b.r.Intn(4) {
	case 0:
		o.Via, o.Bad = "file", "missing"
	case 1:
		o.Chunk, o.Faults = b.r.Uint64()>>1|1, []Fault{{At: b.r.Intn(150), Kind: []string{"err", "unexpected", "witherr"}[b.r.Intn(3)]}}
	case 2:
		o.Damage, o.Bad = []Dmg{{Kind: "cut", At: b.r.Intn(60)}}, "damaged"
	case 3:
		o.Via, o.Damage, o.Bad = "file", []Dmg{{Kind: "cut", At: b.r.Intn(60)}}, "damaged"
	}
	b.add(o)
}

func (b *bld) badPageOp() {
	n := len(b.src)
	k := []int{0, -1, n + 1, n + 7, 1 << 30, -n}[b.r.Intn(6)]
	switch b.r.Intn(4) {
	case 0:
		b.add(Op{K: "rm", Page: k, Bad: "range"})
	case 1:
		b.add(Op{K: "rmother", Page: k, Bad: "range"})
	case 2:
		b.add(Op{K: "dup", Page: k, Pos: b.r.Intn(n), Bad: "range"})
	case 3:
		b.add(Op{K: "dup", Page: 1 + b.r.Intn(n), Pos: []int{n, n + 3, -n - 1, -n - 5, 1 << 30, -1 << 30}[b.r.Intn(6)], Bad: "range"})
	}
}

// badOp: a call that must fail, or is damaged so that it may
func (b *bld) badOp() {
	for {
		switch b.r.Intn(11) {
		case 9, 10:
			if b.cur == "" || b.specs[b.cur] == nil {
				continue
			}
			t := b.noGlyph(b.cur)
			if t == "" {
				continue
			}
			if b.p(4) {
				b.add(Op{K: "measure", Text: t, Bad: "glyph"})
				return
			}
			o := Op{K: "insert", Text: t, Page: 1 + b.r.Intn(len(b.src)), X: 5, Y: 5, W: 50, H: 20, Align: b.align(), Bad: "glyph"}
			if b.p(3) {
				o.K, o.Kind = "wrap", b.r.Intn(4)
			}
			b.add(o)
		case 0, 1:
			b.badPageOp()
		case 2:
			if b.p(3) { // what was open stays open
				b.badOpen()
				break
			}
			b.add(Op{K: "setfont", Name: "no such font", Size: 3, Bad: "name"})
		case 3:
			b.add(Op{K: []string{"kern", "rise"}[b.r.Intn(2)], Name: "no such font", Kind: 1, Bad: "name"})
		case 4:
			o := Op{K: "addfont", Name: "broken", Font: &FontSpec{Seed: b.r.Uint64() >> 1}, Bad: "damaged"}
			o.Damage = []Dmg{{Kind: "cut", At: b.r.Intn(60)}}
			if b.p(2) {
				o.Damage[0].At = 60 + b.r.Intn(3000)
				o.Bad = ""
			}
			b.add(o)
		case 5:
			if len(b.fonts) == 0 {
				continue
			}
			b.add(Op{K: "addfont", Name: b.fonts[b.r.Intn(len(b.fonts))], Font: b.fontSpec(), Bad: "taken"})
		case 6:
			o := Op{K: "img", Img: b.img(), Page: 1 + b.r.Intn(len(b.src)), Via: []string{"", "base64", "cache"}[b.r.Intn(3)], X: 1, Y: 1, W: 30, H: 30, Bad: "damaged"}
			o.Damage = []Dmg{{Kind: "cut", At: b.r.Intn(11)}}
			if b.p(2) {
				o.Damage = randomDamage(b.r, false)
				o.Bad = ""
			}
			b.add(o)
		case 7:
			if b.cur == "" {
				b.add(Op{K: "insert", Text: "x", Page: 1, Bad: "nofont"})
				return
			}
			o := Op{K: "wrap", Kind: 4, Text: b.text(b.cur, 9), Page: 1 + b.r.Intn(len(b.src)), X: 5, Y: 5, W: 50, H: 20, Bad: "breaker"}
			b.add(o)
		case 8:
			o := Op{K: "addfont", Name: "unread", Font: &FontSpec{Seed: b.r.Uint64() >> 1}}
			if b.p(2) {
				o.Via = "file"
				o.Bad = "missing"
			} else {
				o.Chunk = b.r.Uint64()>>1 | 1
				o.Faults = []Fault{{At: b.r.Intn(400), Kind: []string{"err", "unexpected", "witherr"}[b.r.Intn(3)]}}
			}
			b.add(o)
		}
		return
	}
}

func (b *bld) password(max int) []byte {
	n := b.r.Intn(max + 1)
	if b.p(5) {
		n = 32
	}
	if b.p(8) {
		n = 33 + b.r.Intn(10)
	}
	p := make([]byte, n)
	for i := range p {
		if b.p(10) {
			p[i] = byte(b.r.Intn(256))
		} else {
			p[i] = byte('a' + b.r.Intn(26))
		}
	}
	return p
}

func (b *bld) protect() {
	o := Op{K: "protect", User: b.password(12), Owner: b.password(12)}
	if b.owner && len(o.Owner) == 0 {
		o.Owner = []byte("own")
	}
	if b.p(3) {
		o.User = nil
	}
	for _, bit := range []int{4, 8, 16, 32} {
		if b.p(2) {
			o.Perm |= bit
		}
	}
	b.add(o)
}

func (b *bld) save() {
	o := Op{K: "save"}
	if b.files && b.p(4) {
		o.Via = "file"
		o.Name = []string{"longer", "empty", "none", ""}[b.r.Intn(4)]
	}
	b.add(o)
}

// weights of the kinds of calls of one run; every run draws its own (swarm)
type mixW map[string]int

func (b *bld) swarm(m mixW) mixW {
	o := mixW{}
	for k, v := range m {
		o[k] = v
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		switch b.r.Intn(4) {
		case 0:
			o[k] = 0
		case 1:
			o[k] *= 4
		}
	}
	return o
}

func (b *bld) pick(m mixW) string {
	var ks []string
	t := 0
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		t += m[k]
	}
	if t == 0 {
		return ""
	}
	x := b.r.Intn(t)
	for _, k := range ks {
		if x < m[k] {
			return k
		}
		x -= m[k]
	}
	return ""
}

var editMix = mixW{"font": 2, "setfont": 3, "insert": 8, "wrap": 3, "img": 4, "page": 4, "border": 1, "kern": 1, "rise": 1, "measure": 1, "npages": 1}

func (b *bld) edits(n int, m mixW) {
	b.crowd = n > 0 && b.p(30)
	if b.crowd {
		n = 12 + n*2
	}
	for i := 0; i < n; i++ {
		b.edit(b.pick(m))
	}
}

func (b *bld) edit(k string) {
	switch k {
	case "font":
		if len(b.fonts) < 3 {
			b.font()
		} else if b.crowd {
			b.font()
			b.setfont()
			b.insert()
		}
	case "setfont":
		b.setfont()
	case "insert":
		b.insert()
	case "wrap":
		b.wrap(b.r.Intn(4))
	case "wrapbad":
		if b.cur != "" {
			b.add(Op{K: "wrap", Kind: 4, Text: b.text(b.cur, 30), Page: 1 + b.r.Intn(len(b.src)), X: 5, Y: 5, W: 50, H: 20, Bad: "breaker"})
		}
	case "img":
		b.image()
	case "page":
		b.pageOp()
	case "rmp":
		if n := len(b.src); n > 1 && b.maxIns < n {
			k := b.maxIns + 1 + b.r.Intn(n-b.maxIns)
			b.add(Op{K: "rm", Page: k})
			b.src = append(append([]int(nil), b.src[:k-1]...), b.src[k:]...)
		}
	case "badpage":
		b.badPageOp()
	case "bad":
		b.badOp()
	case "border":
		b.add(Op{K: "border", On: b.p(2)})
	case "kern", "rise":
		// an override applies to everything the font writes, also before
		if len(b.fonts) > 0 {
			f := b.fonts[b.r.Intn(len(b.fonts))]
			if !b.used[f] {
				b.add(Op{K: k, Name: f, Kind: 1 + b.r.Intn(3)})
			}
		}
	case "measure":
		if b.cur != "" {
			b.add(Op{K: "measure", Text: b.text(b.cur, 20)})
		}
	case "npages":
		b.add(Op{K: "npages"})
	case "protect":
		b.protect()
	case "save":
		b.save()
	}
}

// writer faults and disk faults
func (b *bld) faultySave() {
	o := Op{K: "save"}
	if b.p(2) {
		o.Via = "file"
		o.Name = []string{"longer", "empty", "none", "", "nodir", "isdir"}[b.r.Intn(6)]
		for k := 1 + b.r.Intn(2); k > 0; k-- {
			o.Faults = append(o.Faults, Fault{At: b.r.Intn(6), Kind: []string{"eio", "enospc", "eacces", "short", "short", "eintr"}[b.r.Intn(6)], N: b.r.Intn(1 << 20)})
		}
	} else {
		at := b.r.Intn(3000)
		switch b.r.Intn(4) {
		case 0:
			at = b.r.Intn(30)
		case 1:
			at = b.r.Intn(60000)
		}
		o.Faults = []Fault{{At: at, Kind: []string{"err", "once", "full", "eof", "short", "silent"}[b.r.Intn(6)]}}
	}
	b.add(o)
}

func (b *bld) plan(prop string, idx int, seed uint64) Plan {
	for i := range b.ops {
		o := &b.ops[i]
		switch o.K {
		case "open", "addfont", "gfont":
			if o.Via == "" && o.Chunk == 0 && len(o.Faults) == 0 && b.p(2) {
				o.Via = []string{"buffer", "bufio", "mid"}[b.r.Intn(3)]
			}
		}
	}
	p := Plan{Prop: prop, Idx: idx, Seed: seed, Map: b.r.Uint64() >> 1, Entropy: b.r.Uint64() >> 1, Clock: 1700000000e9 + b.r.Int63n(1e17)}
	if b.ops != nil {
		p.Tasks = []Task{{b.ops}}
	}
	return p
}

func (b *bld) session(n int, m mixW, maxPages int, prot int) {
	b.open(b.tmpl(maxPages))
	b.edits(b.r.Intn(n+1), b.swarm(m))
	if prot > 0 && b.p(prot) {
		b.protect()
	}
}

func genPlan(prop string, idx int, seed uint64) Plan {
	r := newRand(prop, idx, seed)
	b := newBld(r)
	switch prop {
	case "C01":
		b.files = true
		b.session(10, editMix, 6, 4)
		b.save()
		if b.p(3) {
			b.edits(r.Intn(5), b.swarm(editMix))
			b.save()
		}
	case "C02":
		b.session(5, editMix, 7, 6)
		b.save()
	case "C03":
		m := mixW{"font": 3, "setfont": 4, "insert": 12, "border": 1, "kern": 1, "rise": 1, "measure": 2, "page": 1}
		b.open(b.tmpl(4))
		b.edits(2+r.Intn(14), b.swarm(m))
		b.insert()
		b.save()
	case "C04":
		m := mixW{"img": 10, "insert": 2, "page": 1}
		b.open(b.tmpl(4))
		b.edits(1+r.Intn(8), b.swarm(m))
		b.image()
		b.save()
	case "C05":
		m := mixW{"page": 12, "badpage": 3, "npages": 2, "insert": 1, "img": 1, "save": 1}
		b.open(b.tmpl(8))
		b.edits(2+r.Intn(12), b.swarm(m))
		b.add(Op{K: "npages"})
		b.save()
	case "C06":
		b.files, b.owner = true, true
		b.session(6, editMix, 4, 4)
		for k := 1 + r.Intn(4); k > 0; k-- {
			if b.p(3) {
				b.faultySave()
			} else {
				b.save()
				if b.p(3) {
					b.save()
				}
			}
			if b.p(2) {
				b.edits(1+r.Intn(4), b.swarm(editMix))
			}
		}
		b.save()
		b.save()
	case "C07":
		if b.p(6) {
			b.gfaults = true
			b.gsession(6)
			break
		}
		b.session(4, editMix, 3, 6)
		for k := 1 + r.Intn(3); k > 0; k-- {
			b.faultySave()
		}
		if b.p(2) {
			b.add(Op{K: "save", Via: "file", Name: []string{"longer", "empty", "none", ""}[r.Intn(4)], Faults: []Fault{{At: r.Intn(5), Kind: "crash", N: r.Intn(1 << 20)}}})
		} else {
			b.save()
			b.faultySave()
		}
	case "C08":
		b.chunky, b.owner = true, true
		if b.p(6) {
			b.deliv = true
			b.gsession(8)
			break
		}
		if b.p(3) { // a read that fails first
			b.add(Op{K: "open", Tmpl: b.tmpl(4), Chunk: r.Uint64()>>1 | 1, Faults: []Fault{{At: r.Intn(4000), Kind: []string{"err", "unexpected", "witherr"}[r.Intn(3)]}}})
		}
		if b.p(4) {
			b.add(Op{K: "open", Tmpl: b.tmpl(4), Via: "file", Faults: b.diskReadFaults()})
		}
		b.open(b.tmpl(4))
		b.font()
		if b.p(3) {
			b.add(Op{K: "addfont", Name: "unread", Font: b.fontSpec(), Chunk: r.Uint64()>>1 | 1, Faults: []Fault{{At: r.Intn(3000), Kind: []string{"err", "unexpected", "witherr"}[r.Intn(3)]}}})
		}
		if b.p(4) {
			b.add(Op{K: "addfont", Name: "unread2", Font: b.fontSpec(), Via: "file", Faults: b.diskReadFaults()})
		}
		b.edits(r.Intn(5), b.swarm(editMix))
		b.insert()
		b.save()
	case "C09":
		p := b.plan(prop, idx, seed)
		p.Share = b.p(2)
		p.Sched = r.Uint64() >> 1
		p.Mean = []int{1, 3, 10, 30, 100, 400, 2000, 10000}[r.Intn(8)]
		t := b.tmpl(3)
		f := b.fontSpec()
		im := gen.RandomImg(r)
		sameProg := b.p(4)
		var first []Op
		for k := 2 + r.Intn(3); k > 0; k-- {
			c := newBld(r)
			c.owner = true
			c.chunky = b.p(3)
			c.files = b.p(4)
			if sameProg && first != nil {
				p.Tasks = append(p.Tasks, Task{first})
				continue
			}
			if b.p(6) {
				c.gsession(8)
				p.Tasks = append(p.Tasks, Task{c.ops})
				continue
			}
			if b.p(6) {
				c.form(5)
				p.Tasks = append(p.Tasks, Task{c.ops})
				continue
			}
			if b.p(2) { // several use the same inputs
				c.open(t)
				c.add(Op{K: "addfont", Name: "a", Font: f})
				c.fonts, c.nfont, c.specs["a"] = []string{"a"}, 1, f
				c.imgs = []gen.Img{im}
			} else {
				c.open(c.tmpl(3))
			}
			c.edits(1+r.Intn(6), c.swarm(editMix))
			if b.p(3) {
				c.protect()
			}
			c.save()
			if b.p(3) {
				c.edits(1+r.Intn(3), c.swarm(editMix))
				c.save()
			}
			first = c.ops
			p.Tasks = append(p.Tasks, Task{c.ops})
		}
		return p
	case "C10":
		b.owner = true
		switch r.Intn(6) {
		case 0:
			b.form(6)
		case 1:
			b.gsession(8)
		default:
			b.session(9, editMix, 5, 4)
			if b.p(2) {
				b.insert()
				n := 3
				if b.p(5) { // many
					n = 30
				}
				for k := 0; k < n; k++ {
					b.font()
				}
			}
			b.save()
		}
	case "C11":
		b.owner = b.p(2)
		b.open(b.tmpl(4))
		if b.p(3) {
			b.protect()
		}
		b.edits(r.Intn(7), b.swarm(editMix))
		b.protect()
		b.edits(r.Intn(3), b.swarm(editMix))
		b.save()
		if b.p(4) {
			b.protect()
			b.save()
		}
	case "C12":
		if b.p(5) {
			b.deliv, b.noowner = false, true
			b.gsession(3)
			break
		}
		b.open(b.tmpl(2))
		b.edits(r.Intn(3), b.swarm(editMix))
		b.add(Op{K: "protect", User: b.password(8), Owner: [][]byte{nil, {}}[r.Intn(2)], Perm: 4})
		b.save()
	case "C13":
		if b.p(6) {
			b.gbad = true
			b.gsession(10)
			break
		}
		if b.p(6) {
			b.formbad = true
			b.form(10)
			break
		}
		m := mixW{"font": 2, "setfont": 3, "insert": 6, "wrap": 2, "img": 3, "page": 2, "bad": 14, "npages": 1, "save": 1}
		b.owner = true
		b.open(b.tmpl(4))
		b.edits(2+r.Intn(12), b.swarm(m))
		b.badOp()
		if b.p(2) {
			b.edits(1+r.Intn(3), b.swarm(editMix))
		}
		b.save()
	case "C14":
		b.damaged()
	case "C15":
		b.gfaults = b.p(4)
		if b.p(80) {
			b.crowd = true
			b.gsession(1200)
			break
		}
		b.gsession(14)
	case "C16":
		b.owner, b.reuse = true, b.p(2)
		b.session(6, editMix, 4, 5)
		if b.p(2) {
			b.save()
		}
		if b.p(4) {
			b.add(Op{K: "open", Tmpl: b.tmpl(3), Chunk: r.Uint64()>>1 | 1, Faults: []Fault{{At: r.Intn(1500), Kind: "err"}}})
		} else if b.p(4) {
			b.add(Op{K: "open", Tmpl: b.tmpl(3), Damage: []Dmg{{Kind: "cut", At: r.Intn(2000)}}})
		}
		if b.p(3) {
			b.session(4, editMix, 3, 0)
		}
		prev := b.cur
		b.open(b.tmpl(4))
		if prev != "" && b.p(4) { // the font that was set is not set any more
			b.add(Op{K: "addfont", Name: prev, Font: b.specs[prev]})
			b.fonts, b.nfont = []string{prev}, 1
			b.add(Op{K: []string{"insert", "measure", "wrap"}[r.Intn(3)], Text: "x" + b.text(prev, 6), Page: 1, W: 20, H: 20})
			b.cur = ""
		}
		b.edits(r.Intn(6), b.swarm(editMix))
		b.save()
	case "C17":
		b.owner = true
		if b.p(4) {
			b.form(5)
		} else if b.p(4) {
			b.gsession(8)
		} else {
			b.session(8, editMix, 4, 3)
			if b.p(2) {
				b.insert()
			}
			b.save()
		}
		for i := range b.ops {
			switch b.ops[i].K {
			case "open", "addfont", "insert", "wrap", "img", "protect", "ropen", "gfont", "gimg":
				b.ops[i].Scribble = !b.p(3)
			}
		}
	case "C18":
		b.open(b.tmpl(3))
		b.edits(r.Intn(6), b.swarm(editMix))
		b.save()
		if b.p(5) {
			// a protected document is no template: refused, the session goes on
			b.owner = true
			b.protect()
			b.save()
			b.add(Op{K: "openlast", Via: []string{"", "", "buffer"}[r.Intn(3)]})
			b.edits(r.Intn(4), b.swarm(mixW{"setfont": 3, "insert": 8, "img": 4, "page": 1}))
			b.save()
			break
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			b.add(Op{K: "openlast", Via: []string{"", "new"}[r.Intn(2)]})
			b.reopened()
			b.edits(r.Intn(5), b.swarm(mixW{"font": 2, "setfont": 3, "insert": 8, "wrap": 2, "img": 4, "rmp": 1}))
			b.save()
		}
	case "C19":
		b.form(8)
	case "C20":
		m := mixW{"wrap": 12, "setfont": 3, "font": 1, "border": 1, "kern": 1, "wrapbad": 2}
		b.open(b.tmpl(3))
		b.edits(1+r.Intn(7), b.swarm(m))
		b.wrap(r.Intn(4))
		b.save()
	case "C21":
		if b.p(4) { // several at once
			p := b.plan(prop, idx, seed)
			p.Sched = r.Uint64() >> 1
			p.Mean = []int{1, 10, 100, 1000}[r.Intn(4)]
			for k := 2 + r.Intn(2); k > 0; k-- {
				c := newBld(r)
				c.makeFonts(false)
				p.Tasks = append(p.Tasks, Task{c.ops})
			}
			return p
		}
		b.makeFonts(true)
	}
	return b.plan(prop, idx, seed)
}

func (b *bld) diskReadFaults() []Fault {
	var fs []Fault
	for k := 1 + b.r.Intn(2); k > 0; k-- {
		fs = append(fs, Fault{At: b.r.Intn(5), Kind: []string{"eio", "eacces", "short", "short", "eintr"}[b.r.Intn(5)], N: b.r.Intn(1 << 16)})
	}
	return fs
}

// form: a form filled in by field names
func (b *bld) form(n int) {
	t := b.tmpl(4)
	var doc = tmplInput(t).doc
	fonts := []string{"a", "b"}
	keys := []string{"name", "addr", "a", "b1", "total", "Ω", "x y", "sig", "Name", "", "name ", " name", "nam", "NAME"}[:8+6*b.r.Intn(2)]
	o := Op{K: "ropen", Tmpl: t}
	k := b.r.Intn(9)
	if b.p(25) {
		k = 60
	}
	for ; k >= 0; k-- {
		f := Field{Key: keys[b.r.Intn(len(keys))], Page: 1 + b.r.Intn(len(doc.Pages)), X: b.coord(), Y: b.coord(), W: float64(1 + b.r.Intn(200)), H: float64(1 + b.r.Intn(60)), Align: b.align(),
			Font: fonts[b.r.Intn(2)], Size: 1 + b.r.Intn(30), Wrap: b.p(3)}
		o.Fields = append(o.Fields, f)
	}
	b.add(o)
	b.opened(doc)
	b.fonts, b.nfont = fonts, 2
	for _, f := range fonts {
		sp := b.fontSpec()
		if b.p(12) {
			continue // its fields cannot be filled in
		}
		b.specs[f] = sp
		b.add(Op{K: "addfont", Name: f, Font: sp})
	}
	fontOf := map[string]string{}
	for _, f := range o.Fields {
		fontOf[f.Key] = f.Font
	}
	fill := func() {
		key := keys[b.r.Intn(len(keys))]
		switch b.r.Intn(8) {
		case 0:
			b.add(Op{K: "rimg", Name: key, Img: b.img()})
		case 1:
			b.add(Op{K: "rbreaker", Kind: b.r.Intn(5)})
		case 2:
			if b.p(4) {
				b.add(Op{K: "rimg", Name: key, Img: b.img(), Bad: "damaged", Damage: []Dmg{{Kind: "cut", At: b.r.Intn(11)}}})
			}
		default:
			tx := ""
			if f := fontOf[key]; f != "" && b.specs[f] != nil {
				tx = b.text(f, 14)
				if b.p(4) { // words
					tx = "a " + b.text(f, 5) + " " + b.text(f, 5) + "  " + tx
				}
				if b.formbad && b.p(4) {
					if t := b.noGlyph(f); t != "" {
						b.add(Op{K: "rtext", Name: key, Text: t, Bad: "glyph"})
					}
				}
			}
			b.add(Op{K: "rtext", Name: key, Text: tx})
		}
	}
	for k := b.r.Intn(n + 1); k > 0; k-- {
		fill()
	}
	if b.p(3) {
		ok := true
		for _, f := range o.Fields {
			if b.specs[f.Font] == nil {
				ok = false
				continue
			}
			for _, c := range "#" + f.Key {
				in := fontInput(b.specs[f.Font])
				if in.f.Gid(c) == 0 {
					ok = false
				}
			}
		}
		if ok {
			b.add(Op{K: "rdesign"})
		}
	}
	if b.p(5) {
		b.protect()
	}
	b.save()
	if b.p(4) { // filled in further and saved again
		for k := b.r.Intn(4); k >= 0; k-- {
			fill()
		}
		b.save()
	}
}

// gsession: a document drawn from nothing
func (b *bld) gsession(n int) {
	r := b.r
	again := 0
	if !b.again && b.p(8) { // after another document, with the same GoPdf
		b.again = true
		b.gsession(n / 2)
		b.again = false
		again = 1
	}
	o := Op{Pos: again, K: "gstart", W: float64(100 + r.Intn(800)), H: float64(100 + r.Intn(900)), Kind: r.Intn(5)}
	if b.noowner || b.p(3) {
		o.On = true
		o.User, o.Owner = b.password(8), b.password(8)
		if len(o.Owner) == 0 {
			o.Owner = []byte("o")
		}
		if b.noowner {
			o.Owner = [][]byte{nil, {}}[r.Intn(2)]
		}
		o.Perm = 4 * r.Intn(16)
	}
	b.add(o)
	specs := map[string]*FontSpec{}
	fonts := [][]string{{"x", "y", "z"}, {"a (b)", "x y", "<1>"}}[r.Intn(4)/3][:1+r.Intn(3)]
	styles := map[string][]int{}
	kern, over := map[string]bool{}, map[string]bool{}
	addFont := func(f string, style int) {
		if style == 0 || !b.p(3) {
			specs[f] = b.fontSpec()
		}
		styles[f] = append(styles[f], style)
		g := Op{K: "gfont", Name: f, Font: specs[f], Kind: style, On: b.p(2)}
		kern[f] = kern[f] || g.On
		if style == 0 {
			over[f] = g.On
		}
		switch r.Intn(3) {
		case 0:
			g.Chunk = r.Uint64()>>1 | 1
		case 1:
			g.Via = "file"
			if b.p(3) {
				g.Faults = []Fault{{At: r.Intn(5), Kind: []string{"short", "eintr"}[r.Intn(2)], N: r.Intn(5000)}}
			}
		}
		if (b.deliv || b.gbad) && b.p(3) { // it cannot be read the first time
			u := g
			switch {
			case u.Via == "file" && b.p(2):
				u.Bad, u.Faults = "missing", nil
			case u.Via == "file":
				u.Faults = b.diskReadFaults()
			default:
				u.Chunk, u.Faults = r.Uint64()>>1|1, []Fault{{At: r.Intn(3000), Kind: []string{"err", "unexpected", "witherr"}[r.Intn(3)]}}
			}
			u.Name = "unread" + string(rune(0x61+len(b.ops)%26))
			b.add(u)
		}
		b.add(g)
	}
	byStyle := map[string]*FontSpec{}
	for _, f := range fonts {
		addFont(f, 0)
		byStyle[fkey(f, 0)] = specs[f]
		if b.p(3) {
			k := 1 + r.Intn(3)
			addFont(f, k)
			byStyle[fkey(f, k)] = specs[f]
		}
		if over[f] && b.p(3) {
			b.add(Op{K: "gkern", Name: f, Kind: 1 + r.Intn(4)})
		}
	}
	b.specs = specs
	if b.p(4) {
		b.add(Op{K: "gmargin", X: b.coord(), Y: b.coord()})
	}
	b.add(Op{K: "gpage"})
	cur := ""
	// A text goes on where the one before it ended, as one text: it is not
	// kerned and underlined on its own.
	under, open := false, false
	text := func(o Op) {
		whole := o.K == "gcell" || under || kern[cur]
		if l := b.ops[len(b.ops)-1]; open && whole && (l.K != "gxy" || l.Kind == 2) {
			b.add(Op{K: "gxy", X: b.coord(), Y: b.coord()})
		}
		open = whole
		b.add(o)
	}
	info := func() string {
		return []string{"Title", "ชื่อ", "a(b)\\c", "𝄞 ♪", "x\r\ny", "ÿþ", "", "\u2028"}[r.Intn(8)]
	}
	deliver := func() {
		switch r.Intn(4) {
		case 0:
			b.add(Op{K: "gbytes"})
		case 1:
			o := Op{K: "gwrite", Name: []string{"", "longer"}[r.Intn(2)]}
			if b.gfaults && b.p(2) {
				for k := r.Intn(3); k > 0; k-- {
					o.Faults = append(o.Faults, Fault{At: r.Intn(6), Kind: []string{"eio", "enospc", "eacces", "short", "short", "eintr"}[r.Intn(6)], N: r.Intn(1 << 20)})
				}
				if len(o.Faults) == 0 {
					o.Name = "nodir"
				}
			}
			b.add(o)
		default:
			b.add(Op{K: "gread", Chunk: r.Uint64() >> 1, On: b.p(2)})
		}
	}
	for k := r.Intn(n + 1); k > 0; k-- {
		if cur == "" || b.p(5) {
			cur = fonts[r.Intn(len(fonts))]
			k := styles[cur][r.Intn(len(styles[cur]))]
			st := []string{"", "I", "B", "BI"}[k]
			if k == 3 && b.p(2) {
				st = "IB"
			}
			under = b.p(3)
			if under {
				st = []string{st + "U", "U" + st}[r.Intn(2)]
			}
			if b.p(4) {
				st = strings.ToLower(st)
			}
			specs[cur] = byStyle[fkey(cur, k)]
			b.add(Op{K: "gsetfont", Name: cur, Size: 1 + r.Intn(40), Style: st})
		}
		if b.gbad && b.p(2) {
			switch r.Intn(5) {
			case 0:
				b.add(Op{K: "gsetfont", Name: "nosuch", Size: 1 + r.Intn(40), Bad: "font"})
			case 1:
				b.add(Op{K: "gkern", Name: "nosuch", Kind: 1, Bad: "font"})
			case 2:
				g := Op{K: "gimg", Img: b.img(), X: b.coord(), Y: b.coord(), W: 20, H: 20, Damage: []Dmg{{Kind: "cut", At: r.Intn(40)}}, Bad: "image", Via: []string{"", "reader"}[r.Intn(2)]}
				b.add(g)
			default:
				if t := b.noGlyph(cur); t != "" {
					b.add(Op{K: []string{"gtext", "gcell", "gmeasure"}[r.Intn(3)], Text: t, W: 50, H: 20, Bad: "glyph"})
				}
			}
		}
		kind := r.Intn(20)
		if b.crowd && !b.p(40) { // long pages, few of everything else
			kind = []int{0, 3, 4, 10, 10, 14, 16, 18, 18}[r.Intn(9)]
		}
		switch kind {
		case 0, 1, 2:
			if !b.p(4) {
				b.add(Op{K: "gxy", X: b.coord(), Y: b.coord(), Kind: r.Intn(3)})
			}
			text(Op{K: "gtext", Text: b.text(cur, 10)})
		case 3:
			text(Op{K: "gtext", Text: b.text(cur, 6)})
		case 4, 5:
			if b.p(2) {
				b.add(Op{K: "gxy", X: b.coord(), Y: b.coord(), Kind: r.Intn(3)})
			}
			g := Op{K: "gcell", Text: b.text(cur, 10), W: float64(r.Intn(200)), H: float64(r.Intn(60)), On: b.p(5)}
			if b.p(2) {
				g.Align = b.align()
			}
			if b.p(2) {
				g.Kind = r.Intn(16)
			}
			if b.p(2) {
				g.Pos = []int{0, 2, 1, 3}[r.Intn(4)]
			}
			text(g)
		case 6:
			g := Op{K: "gpage"}
			if b.p(2) {
				g.W, g.H = float64(50+r.Intn(800)), float64(50+r.Intn(800))
			}
			b.add(g)
		case 7, 8, 9:
			g := Op{K: "gimg", Img: b.img(), X: b.coord(), Y: b.coord(), W: float64(1 + r.Intn(200)), H: float64(1 + r.Intn(200)), Via: []string{"", "reader", "file"}[r.Intn(3)]}
			if b.p(4) {
				g.W, g.H = 0, 0
			}
			if g.Via == "reader" {
				g.Chunk = r.Uint64()>>1 | 1
				if b.p(6) || b.deliv && b.p(2) {
					g.Faults = []Fault{{At: r.Intn(100), Kind: []string{"err", "unexpected", "witherr"}[r.Intn(3)]}}
				}
			}
			if g.Via == "file" && b.deliv && b.p(2) {
				g.Faults = b.diskReadFaults()
			}
			b.add(g)
		case 10:
			b.add(Op{K: "gline", X: b.coord(), Y: b.coord(), W: b.coord(), H: b.coord()})
		case 11:
			b.add(Op{K: "gmeasure", Text: b.text(cur, 20)})
		case 12:
			b.add(Op{K: "ginfo", Text: info(), Name: info(), Style: info(), Kind: r.Intn(3) * r.Intn(1000)})
		case 13:
			if b.p(2) {
				if c := b.color(); c != nil {
					b.add(Op{K: "gcolor", Col: c})
				}
			} else {
				deliver()
			}
		case 14:
			b.add(Op{K: "gbr", H: float64(1+r.Intn(100)) / 2})
		case 15:
			b.add(Op{K: "gpos"})
		case 16, 17:
			g := Op{K: "gstyle", Kind: r.Intn(6)}
			switch g.Kind {
			case 0:
				g.W = float64(r.Intn(80)) / 8
			case 1:
				g.Name = []string{"dashed", "dotted", "straight", ""}[r.Intn(4)]
			case 2, 3:
				g.W = float64(r.Intn(121)-10) / 100
			default:
				g.Col = &[3]int{r.Intn(256), r.Intn(256), r.Intn(256)}
				if b.p(4) {
					g.Col = &[3]int{}
				}
			}
			b.add(g)
		case 18, 19:
			b.add(Op{K: "gshape", Kind: r.Intn(4), X: b.coord(), Y: b.coord(), W: b.coord(), H: b.coord(), Style: []string{"", "D", "F", "FD", "DF"}[r.Intn(5)]})
		}
	}
	deliver()
	deliver()
}

// damaged: an input that storage or transport has damaged, then ordinary work
func (b *bld) damaged() {
	r := b.r
	if b.p(8) { // calls before a template is open
		for k := 1 + r.Intn(5); k > 0; k-- {
			switch r.Intn(8) {
			case 0:
				b.specs["u"] = b.fontSpec()
				b.add(Op{K: "addfont", Name: "u", Font: b.specs["u"], Via: []string{"", "file"}[r.Intn(2)]})
				b.add(Op{K: "setfont", Name: "u", Size: 10})
			case 1:
				b.add(Op{K: "img", Img: b.img(), Page: r.Intn(3), Via: []string{"", "base64", "cache"}[r.Intn(3)], X: 1, Y: 1, W: 30, H: 30})
			case 2:
				tx := "x"
				if b.specs["u"] != nil {
					tx = b.text("u", 6)
				}
				b.add(Op{K: []string{"insert", "measure", "wrap"}[r.Intn(3)], Text: tx, Page: r.Intn(3), W: 20, H: 20})
			case 3:
				b.add(Op{K: []string{"rm", "rmother", "dup", "npages"}[r.Intn(4)], Page: r.Intn(3), Pos: r.Intn(3) - 1})
			case 4:
				b.protect()
			case 5:
				b.add(Op{K: []string{"border", "setfont", "kern", "rise"}[r.Intn(4)], Name: "u", Size: 9, Kind: 1, On: true})
			default:
				b.add(Op{K: "save"})
			}
		}
		if b.p(2) {
			return
		}
	}
	switch r.Intn(7) {
	case 6:
		b.gsession(6)
		for i := range b.ops {
			switch o := &b.ops[i]; o.K {
			case "gfont":
				if b.p(2) {
					o.Damage, o.Faults = fontDamage(r), nil
				}
			case "gimg":
				if b.p(2) {
					o.Damage, o.Faults = imageDamage(r), nil
				}
			}
		}
	case 0, 1, 2:
		o := Op{K: "open", Tmpl: b.tmpl(4), Damage: randomDamage(r, true)}
		if b.p(5) {
			o.Damage = []Dmg{{Kind: "cut", At: r.Intn(1 << 20)}}
		}
		if b.p(3) {
			o.Chunk = r.Uint64()>>1 | 1
		}
		doc := tmplInput(o.Tmpl).doc
		b.add(o)
		b.opened(doc)
		b.edits(r.Intn(6), b.swarm(mixW{"insert": 5, "img": 3, "page": 4, "badpage": 1, "npages": 1, "protect": 1, "wrap": 1}))
		b.add(Op{K: "save"})
		if b.p(3) {
			b.edits(1+r.Intn(3), b.swarm(mixW{"insert": 5, "img": 3, "page": 4}))
			b.add(Op{K: "save"})
		}
	case 3:
		b.open(b.tmpl(3))
		for k := 1 + r.Intn(3); k > 0; k-- {
			b.add(Op{K: "img", Img: b.img(), Page: 1 + r.Intn(len(b.src)), Via: []string{"", "base64", "cache"}[r.Intn(3)], X: 1, Y: 1, W: 30, H: 30, Damage: imageDamage(r)})
		}
		b.add(Op{K: "save"})
	default:
		b.open(b.tmpl(3))
		f := b.fontSpec()
		b.add(Op{K: "addfont", Name: "d", Font: f, Damage: fontDamage(r), Chunk: uint64(r.Intn(2)) * 77})
		b.specs["d"] = f
		b.cur = "d"
		b.fonts = []string{"d"}
		b.add(Op{K: "setfont", Name: "d", Size: 12})
		b.insert()
		b.add(Op{K: "save"})
	}
}

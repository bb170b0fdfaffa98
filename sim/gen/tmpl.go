// Package gen makes the inputs of simulated runs from explicit, shrinkable
// descriptions: templates, images, texts.
package gen

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
)

// Tmpl describes a template document. File: one of the documents that come
// with the repository; everything else is generated.
type Tmpl struct {
	File    string `json:",omitempty"`
	Seed    uint64
	Pages   int
	Nest    int  `json:",omitempty"` // depth of the page tree beyond flat
	Res     int  `json:",omitempty"` // how pages get their resources: 0 own, 1 own indirect, 2 shared indirect, 3 inherited, 4 inherited indirect, 5 none, 6 mixed
	Box     int  `json:",omitempty"` // 0 own, 1 own indirect, 2 inherited, 3 mixed
	Cont    int  `json:",omitempty"` // 0 one flate, 1 one plain, 2 array, 3 shared, 4 missing, 5 mixed
	SubInd  bool `json:",omitempty"` // Font and XObject dictionaries are indirect
	NoSub   bool `json:",omitempty"` // no Font and XObject dictionaries
	Clash   bool `json:",omitempty"` // resource names F1.. I1.. are taken
	LenInd  bool `json:",omitempty"` // indirect Length
	CRLF    bool `json:",omitempty"`
	Compact bool `json:",omitempty"`
	Sparse  bool `json:",omitempty"` // object numbers with holes
	Shuffle bool `json:",omitempty"` // objects not in order
	Subsec  bool `json:",omitempty"` // xref in subsections
	Info    bool `json:",omitempty"`
	Annots  bool `json:",omitempty"`
	Outline bool `json:",omitempty"`
	Extra   bool `json:",omitempty"` // group, crop box, rotation, metadata, extgstate
	High    bool `json:",omitempty"` // bytes above 127 in names
	Binary  bool `json:",omitempty"` // binary streams with awkward ends
	Ws      bool `json:",omitempty"` // all kinds of white space, in references as well
	Jump    int  `json:",omitempty"` // object numbers have one large hole
	Many    int  `json:",omitempty"` // that many filler objects
	Strs    bool `json:",omitempty"` // strings of all kinds in dictionaries that are rewritten
	Form    bool `json:",omitempty"` // form fields, names
	Mix     bool `json:",omitempty"` // object numbers in any order
	Upd     int  `json:",omitempty"` // changed by appending, that many times
	Lin     bool `json:",omitempty"` // first part of the xref table at the begin
	Loose   bool `json:",omitempty"` // content leaves matrix, colours, text state behind
}

type obj struct {
	id   int
	body []byte
}

type builder struct {
	s    Tmpl
	r    *rand.Rand
	objs []obj
	next int
	eol  string

	jumped bool
	pool   []int // numbers to give out, if mixed
	top    int
}

func (b *builder) alloc() int {
	if b.s.Mix {
		if len(b.pool) == 0 {
			for i := 0; i < 16; i++ {
				b.pool = append(b.pool, b.number())
			}
			b.r.Shuffle(16, func(i, j int) { b.pool[i], b.pool[j] = b.pool[j], b.pool[i] })
		}
		id := b.pool[0]
		b.pool = b.pool[1:]
		if id > b.top {
			b.top = id
		}
		return id
	}
	b.top = b.number()
	return b.top
}

func (b *builder) number() int {
	b.next++
	if b.s.Sparse && b.r.Intn(3) == 0 {
		b.next += 1 + b.r.Intn(4)
	}
	if b.s.Jump > 0 && !b.jumped && b.r.Intn(8) == 0 {
		b.jumped = true
		b.next += b.s.Jump
	}
	return b.next
}

func (b *builder) set(id int, body string) { b.objs = append(b.objs, obj{id, []byte(body)}) }
func (b *builder) add(body string) int {
	id := b.alloc()
	b.set(id, body)
	return id
}
func ref(id int) string { return fmt.Sprintf("%d 0 R", id) }

func (b *builder) sp() string {
	if b.s.Compact {
		return ""
	}
	switch b.r.Intn(6) {
	case 0:
		return "  "
	case 1:
		return b.eol
	case 2:
		return "\t"
	}
	return " "
}

// ws: white space that cannot be left out
func (b *builder) ws() string {
	if !b.s.Ws {
		return " "
	}
	return []string{" ", "\t", "\n", "\r\n", "\r", "  ", " \t", "\n\n", "\t\t"}[b.r.Intn(9)]
}

var refRe = regexp.MustCompile(`(\d+) 0 R`)

// spread puts other white space into the references of an object
func (b *builder) spread(body []byte) []byte {
	if !b.s.Ws {
		return body
	}
	head, tail := body, []byte(nil)
	if i := bytes.Index(body, []byte("stream")); i >= 0 {
		head, tail = body[:i], body[i:]
	}
	out := refRe.ReplaceAllFunc(head, func(m []byte) []byte {
		f := bytes.Fields(m)
		return []byte(string(f[0]) + b.ws() + "0" + b.ws() + "R")
	})
	return append(append([]byte(nil), out...), tail...)
}

// dict: pairs of key and value; nothing that needs a separator loses it
func (b *builder) dict(kv ...string) string {
	var o strings.Builder
	o.WriteString("<<")
	for i := 0; i+1 < len(kv); i += 2 {
		o.WriteString(b.sp() + "/" + kv[i])
		v := kv[i+1]
		if v[0] == '/' || v[0] == '[' || v[0] == '<' || v[0] == '(' && b.s.Strs {
			o.WriteString(b.sp())
		} else {
			o.WriteString(b.ws())
		}
		o.WriteString(v)
	}
	o.WriteString(b.sp() + ">>")
	return o.String()
}

func (b *builder) arr(v ...string) string {
	if b.s.Compact {
		return "[" + strings.Join(v, " ") + "]"
	}
	if b.r.Intn(2) == 0 {
		return "[ " + strings.Join(v, " ") + " ]"
	}
	return "[" + strings.Join(v, b.eol) + "]"
}

func deflate(d []byte) []byte {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(d)
	w.Close()
	return z.Bytes()
}

func (b *builder) stream(d []byte, mode int, kv ...string) int {
	raw := d
	switch mode {
	case 1:
		raw = deflate(d)
		kv = append(kv, "Filter", "/FlateDecode")
	case 2:
		raw = deflate(d)
		kv = append(kv, "Filter", []string{"[/FlateDecode]", "[ /FlateDecode ]"}[len(raw)%2])
	}
	ln := fmt.Sprint(len(raw))
	if b.s.LenInd && b.r.Intn(2) == 0 {
		ln = ref(b.add(ln))
	}
	if b.r.Intn(2) == 0 {
		kv = append([]string{"Length", ln}, kv...)
	} else {
		kv = append(kv, "Length", ln)
	}
	se := "\n"
	if b.s.CRLF {
		se = "\r\n"
	}
	ee := se
	return b.add(b.dict(kv...) + b.sp() + "stream" + se + string(raw) + ee + "endstream")
}

var badWords = []string{"stream", "endobj", "xref", "trailer", " obj"}

func (b *builder) binary(n int) []byte {
	for {
		d := make([]byte, n)
		b.r.Read(d)
		if n > 4 {
			switch b.r.Intn(6) {
			case 0:
				copy(d[n-2:], "\r\n")
			case 1:
				d[n-1] = '\n'
			case 2:
				d[n-1] = '\r'
			case 3:
				copy(d, "\r\n")
			case 4:
				copy(d, "\n \n")
			case 5:
				d[n-1] = ' '
			}
		}
		ok := true
		for _, w := range badWords {
			ok = ok && !bytes.Contains(d, []byte(w))
		}
		if ok {
			return d
		}
	}
}

func (b *builder) infoString() string {
	r := b.r
	switch r.Intn(9) {
	case 0:
		return "(Plain title)"
	case 1:
		return "(nested (paren \\) \\\\ ) /Type /Pages << [ )"
	case 2:
		return "<FEFF0E010E020041>"
	case 3:
		return "<feff 00 41 4>"
	case 4:
		return "()"
	case 5:
		o := "(esc"
		for i := 1 + r.Intn(6); i > 0; i-- {
			o += []string{"\\101", "\\7", "\\n", "\\t", "\\\r\nnext", "\\012", "\\0", "\\00534", "\\053", "\\b", "\\f", "\\r", "\\q", "\\8", "\\\n", "\\\r", "\\)", "\\(", "\\\\", "\r\n", "\r", "\\377", "\\538", "0", "(x)", "/"}[r.Intn(26)]
		}
		return o + ")"
	case 6:
		d := b.binary(5 + r.Intn(20))
		var o strings.Builder
		o.WriteByte('(')
		for _, c := range d {
			if c == '(' || c == ')' || c == '\\' || c == '\r' {
				o.WriteByte('\\')
				if c == '\r' {
					c = 'r'
				}
			}
			o.WriteByte(c)
		}
		o.WriteByte(')')
		return o.String()
	case 7:
		return "(D:20200102030405+07'00')"
	}
	return "(  two  spaces\tand\ttabs  )"
}

// noteString: a string for the dictionaries the library takes apart
func (b *builder) noteString() string {
	l := []string{
		"(plain)", "(a / b)", "( lead  and  trail )", "(x>>y)", "(<<x)", "([1 0 R])", "(] x [)", "(/Contents 99 0 R)", "(/Resources <</Font <<>> >>)",
		"(a (b) c)", "((((((deep)) (x)))) y (z))", "(a \\) b)", "(a\\\\)", "(line\nline\r\n\tline)", "(the stream ends)", "(>> stream)", "(endstream)", "(\\(stream)", "(> stream)", "(<)", "(>)", "(()())", "()",
		"<41 42>", "<>", "(\xfe\xff\x00A\x00/)", "(\x80\xff\\377)", "(/Kids [] /Count 7)", "(/Parent 1 0 R /Type /Pages)", "(%)", "(1 0 R)", "(0000000017 00000 n )", "(\n0000000016 00000 f \n0000000017 00000 n \n)",
		"(a (b) >> stream c)", "[(a)(>> stream)(>>stream)]", "(a\\)>>\nstream\n)",
	}
	t := l[b.r.Intn(len(l))]
	if strings.Contains(t, "00000 n") && (b.s.Upd > 0 || b.s.Lin) { // only before the first xref section
		return "()"
	}
	return t
}

// notes: entries with strings
func (b *builder) notes(kv []string) []string {
	if !b.s.Strs {
		return kv
	}
	for i := b.r.Intn(3); i > 0; i-- {
		k := fmt.Sprintf("Note%d", len(kv))
		switch b.r.Intn(4) {
		case 0, 1:
			kv = append(kv, k, b.noteString())
		case 2:
			kv = append(kv, k, b.arr(b.noteString(), b.noteString()))
		case 3:
			kv = append(kv, k, b.dict("T", b.noteString(), "N", "1", "V", b.dict("U", b.noteString())))
		}
	}
	return kv
}

func num(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return fmt.Sprint(r.Intn(500))
	}
	return fmt.Sprintf("%.2f", r.Float64()*500)
}

// content: balanced, self-contained page content with a mark of its own
func (b *builder) content(mark string, fonts, xobjs []string) []byte {
	r := b.r
	var o bytes.Buffer
	e := "\n"
	if b.s.CRLF && r.Intn(2) == 0 {
		e = "\r\n"
	}
	if b.s.Loose {
		o.WriteString(b.loose())
	}
	fmt.Fprintf(&o, "q%s%s %s %s %s re W n%s", e, num(r), num(r), num(r), num(r), e)
	fmt.Fprintf(&o, "%.2f %.2f %.2f rg%s", r.Float64(), r.Float64(), r.Float64(), e)
	f := "Helv0"
	if len(fonts) > 0 {
		f = fonts[r.Intn(len(fonts))]
	}
	fmt.Fprintf(&o, "BT /%s 12 Tf %s %s Td (%s) Tj ET%s", f, num(r), num(r), mark, e)
	if b.s.Binary {
		fmt.Fprintf(&o, "BT /%s 9 Tf 1 0 0 1 5 5 Tm (", f)
		for i := 0; i < 12; i++ {
			c := byte(r.Intn(256))
			if c == '(' || c == ')' || c == '\\' || c == '\r' || c == '\n' {
				c = 'x'
			}
			o.WriteByte(c)
		}
		fmt.Fprintf(&o, ") Tj [<0041> -120 (y)] TJ ET%s", e)
	}
	if len(xobjs) > 0 {
		fmt.Fprintf(&o, "q %s 0 0 %s 1 1 cm /%s Do Q%s", num(r), num(r), xobjs[r.Intn(len(xobjs))], e)
	}
	for i := r.Intn(4); i > 0; i-- {
		fmt.Fprintf(&o, "%s %s m %s %s l S%s", num(r), num(r), num(r), num(r), e)
	}
	if r.Intn(8) == 0 {
		for i := 0; i < 300; i++ {
			fmt.Fprintf(&o, "%s %s m %s %s l S%s", num(r), num(r), num(r), num(r), e)
		}
	}
	o.WriteString("Q")
	if b.s.Loose {
		o.WriteString("\n" + b.loose())
	}
	switch r.Intn(4) {
	case 0:
		o.WriteString("\n")
	case 1:
		o.WriteString("  \r\n")
	case 2:
		o.WriteString("\n1 0 0 rg")
	}
	return o.Bytes()
}

// loose: graphics state for the rest of the page
func (b *builder) loose() string {
	r := b.r
	var s string
	for k := r.Intn(3); k > 0; k-- {
		s += []string{"1 0 0 -1 0 792 cm", ".24 0 0 .24 3 4 cm", "0 1 -1 0 100 0 cm", "2 Tc", "50 Tz", "3 Tr", "4 Ts", "7 Tw", "14 TL",
			"10 10 50 50 re W n", "/Helv0 9 Tf", "0 0 1 rg", "0 1 0 RG", "5 w", "[3 1] 0 d", "1 J", ".5 g", "/DeviceRGB cs .1 .2 .3 sc"}[r.Intn(18)] + "\n"
	}
	return s
}

type resNames struct {
	val         string
	fonts, xobj []string
}

func (b *builder) resources() resNames {
	r := b.r
	var rn resNames
	var kv []string
	pre := func(alts ...string) string { return alts[r.Intn(len(alts))] }
	if r.Intn(2) == 0 {
		kv = append(kv, "ProcSet", b.arr("/PDF", "/Text", "/ImageC"))
	}
	if !b.s.NoSub {
		var f, x []string
		name := func(list *[]string, n string) string {
			for _, o := range *list {
				if o == n {
					return ""
				}
			}
			*list = append(*list, n)
			return n
		}
		for i := r.Intn(3); i >= 0; i-- {
			n := fmt.Sprintf("%s%d", pre("TT", "C2_", "Fnt", "R"), r.Intn(20))
			if b.s.Clash && r.Intn(2) == 0 {
				n = fmt.Sprintf("F%d", 1+r.Intn(12))
			}
			if b.s.High && r.Intn(3) == 0 {
				n += "\xe9\xff"
			}
			if name(&rn.fonts, n) == "" {
				continue
			}
			kv2 := []string{"Type", "/Font", "Subtype", "/Type1", "BaseFont", pre("/Helvetica", "/Times-Roman", "/Courier")}
			if b.s.Extra && r.Intn(3) == 0 {
				kv2 = append(kv2, "Encoding", b.dict("Type", "/Encoding", "Differences", b.arr("32", "/space", "/exclam")))
			}
			if b.s.Extra && r.Intn(3) == 0 {
				kv2 = append(kv2, "FontDescriptor", ref(b.add(b.dict("Type", "/FontDescriptor", "FontName", "/ABCDEF+X", "FontFile2", ref(b.stream(b.binary(40+r.Intn(100)), r.Intn(3), "Length1", "140"))))))
			}
			v := b.dict(kv2...)
			if r.Intn(3) > 0 {
				v = ref(b.add(v))
			}
			f = append(f, n, v)
		}
		for i := r.Intn(3); i > 0; i-- {
			n := fmt.Sprintf("%s%d", pre("Im", "X", "Fm"), r.Intn(20))
			if b.s.Clash && r.Intn(2) == 0 {
				n = fmt.Sprintf("I%d", 1+r.Intn(4))
			}
			if name(&rn.xobj, n) == "" {
				continue
			}
			var id int
			switch r.Intn(3) {
			case 0:
				id = b.stream([]byte("q 0 0 1 rg 0 0 5 5 re f Q"), r.Intn(3), "Type", "/XObject", "Subtype", "/Form", "BBox", "[0 0 10 10]", "Resources", b.dict("ProcSet", "[/PDF]"))
			case 1:
				id = b.stream(b.binary(12), r.Intn(3), "Type", "/XObject", "Subtype", "/Image", "Width", "2", "Height", "2", "BitsPerComponent", "8", "ColorSpace", "/DeviceRGB")
			default:
				sm := b.stream(b.binary(4), 1, "Type", "/XObject", "Subtype", "/Image", "Width", "2", "Height", "2", "BitsPerComponent", "8", "ColorSpace", "/DeviceGray")
				id = b.stream(b.binary(12), 0, "Type", "/XObject", "Subtype", "/Image", "Width", "2", "Height", "2", "BitsPerComponent", "8", "ColorSpace", "/DeviceRGB", "SMask", ref(sm))
			}
			x = append(x, n, ref(id))
		}
		fd := b.dict(f...)
		if b.s.SubInd {
			fd = ref(b.add(fd))
		}
		kv = append(kv, "Font", fd)
		if len(x) > 0 {
			xd := b.dict(x...)
			if b.s.SubInd && r.Intn(2) == 0 {
				xd = ref(b.add(xd))
			}
			kv = append(kv, "XObject", xd)
		}
	}
	if b.s.Extra && r.Intn(2) == 0 {
		kv = append(kv, "ExtGState", b.dict("GS0", b.dict("Type", "/ExtGState", "ca", "0.5")))
	}
	if b.s.Extra && r.Intn(2) == 0 {
		kv = append(kv, "ColorSpace", b.dict("Cs1", ref(b.add(b.arr("/ICCBased", ref(b.stream(b.binary(30), 1, "N", "3")))))))
	}
	kv = b.notes(kv)
	// any order of the categories
	n := len(kv) / 2
	p := r.Perm(n)
	var kv2 []string
	for _, i := range p {
		kv2 = append(kv2, kv[2*i], kv[2*i+1])
	}
	rn.val = b.dict(kv2...)
	return rn
}

func (b *builder) box() string {
	sizes := []string{"[0 0 612 792]", "[0 0 595.28 841.89]", "[0 0 200 300]", "[0 0 842 595]", "[0 0 419.53 595.276]", "[0.0 0.0 1000 50.5]", "[0 -50 300 400]", "[0 20.5 500 700.5]"}
	v := sizes[b.r.Intn(len(sizes))]
	if !b.s.Compact && b.r.Intn(2) == 0 {
		v = strings.Replace(v, "[", "[ ", 1)
		v = strings.Replace(v, "]", " ]", 1)
	}
	return v
}

type node struct {
	id, parent int
	kids       []int
	count      int
	kv         []string
	res        *resNames
	box        bool
}

// Make makes the document.
func (s Tmpl) Make() []byte {
	b := &builder{s: s, r: rand.New(rand.NewSource(int64(s.Seed))), eol: "\n"}
	if s.CRLF {
		b.eol = "\r\n"
	}
	r := b.r
	cat := b.alloc()
	if s.Pages < 1 {
		s.Pages = 1
	}
	root := &node{id: b.alloc()}
	nodes := []*node{root}
	leaves := []*node{root}
	for d := 0; d < s.Nest; d++ {
		var nl []*node
		for _, l := range leaves {
			k := 1 + r.Intn(2)
			for i := 0; i < k; i++ {
				n := &node{id: b.alloc(), parent: l.id}
				l.kids = append(l.kids, n.id)
				nodes = append(nodes, n)
				nl = append(nl, n)
			}
			if r.Intn(3) == 0 && len(nl) > 1 {
				// a page may also hang directly under this node
				nl = append(nl, l)
			}
		}
		leaves = nl
	}
	// inheritance from nodes
	parentOf := func(n *node) *node {
		for _, p := range nodes {
			if p.id == n.parent {
				return p
			}
		}
		return nil
	}
	for _, n := range nodes {
		inhRes := s.Res == 3 || s.Res == 4 || s.Res == 6
		if inhRes && (n == root || r.Intn(3) == 0) {
			rn := b.resources()
			v := rn.val
			if s.Res == 4 || (s.Res == 6 && r.Intn(2) == 0) {
				v = ref(b.add(v))
			}
			n.res = &rn
			n.kv = append(n.kv, "Resources", v)
		}
		if (s.Box == 2 || s.Box == 3) && (n == root || r.Intn(3) == 0) {
			v := b.box()
			if r.Intn(4) == 0 {
				v = ref(b.add(v))
			}
			n.kv = append(n.kv, "MediaBox", v)
			n.box = true
		}
		if s.Extra && r.Intn(3) == 0 {
			n.kv = append(n.kv, "Rotate", []string{"0", "90", "180"}[r.Intn(3)])
		}
		if s.Extra && r.Intn(3) == 0 {
			n.kv = append(n.kv, "CropBox", []string{"[0 0 99 200]", "[1 2 98.5 201]"}[r.Intn(2)])
		}
	}
	// shared resources and content
	var sharedRes *resNames
	sharedResRef := ""
	if s.Res == 2 || s.Res == 6 {
		rn := b.resources()
		sharedRes = &rn
		sharedResRef = ref(b.add(rn.val))
	}
	sharedCont := 0
	type page struct {
		id  int
		par *node
	}
	var pages []page
	for i := 0; i < s.Pages; i++ {
		par := leaves[i*len(leaves)/s.Pages]
		id := b.alloc()
		pages = append(pages, page{id, par})
		par.kids = append(par.kids, id)
	}
	var annotAll, fields []string
	for i, p := range pages {
		kv := []string{"Type", "/Page", "Parent", ref(p.par.id)}
		var rn resNames
		mode := s.Res
		if mode == 6 {
			mode = []int{0, 1, 2, 3, 3}[r.Intn(5)]
		}
		switch mode {
		case 0:
			rn = b.resources()
			kv = append(kv, "Resources", rn.val)
		case 1:
			rn = b.resources()
			kv = append(kv, "Resources", ref(b.add(rn.val)))
		case 2:
			rn = *sharedRes
			kv = append(kv, "Resources", sharedResRef)
		case 3, 4:
			for n := p.par; n != nil; n = parentOf(n) {
				if n.res != nil {
					rn = *n.res
					break
				}
			}
		}
		bm := s.Box
		if bm == 3 {
			bm = r.Intn(3)
		}
		switch bm {
		case 0:
			kv = append(kv, "MediaBox", b.box())
		case 1:
			kv = append(kv, "MediaBox", ref(b.add(b.box())))
		}
		cm := s.Cont
		if cm == 5 {
			cm = r.Intn(5)
		}
		mark := fmt.Sprintf("pg%dm%x", i, r.Intn(1<<30))
		fm := 1 + r.Intn(2)
		switch cm {
		case 0:
			kv = append(kv, "Contents", ref(b.stream(b.content(mark, rn.fonts, rn.xobj), fm)))
		case 1:
			kv = append(kv, "Contents", ref(b.stream(b.content(mark, rn.fonts, rn.xobj), 0)))
		case 2:
			var refs []string
			for k := r.Intn(3); k >= 0; k-- {
				refs = append(refs, ref(b.stream(b.content(mark+fmt.Sprint(k), rn.fonts, rn.xobj), r.Intn(3))))
			}
			if r.Intn(4) == 0 { // one of them once more
				refs = append(refs, refs[r.Intn(len(refs))])
			}
			kv = append(kv, "Contents", b.arr(refs...))
		case 4:
			if r.Intn(3) == 0 {
				kv = append(kv, "Contents", "[]")
			}
		case 3:
			if sharedCont == 0 {
				sharedCont = b.stream(b.content("shared", nil, nil), r.Intn(3))
			}
			if r.Intn(3) == 0 {
				kv = append(kv, "Contents", b.arr(ref(b.stream(b.content(mark, rn.fonts, rn.xobj), fm)), ref(sharedCont)))
			} else {
				kv = append(kv, "Contents", ref(sharedCont))
			}
		}
		if s.Annots && r.Intn(2) == 0 {
			var as []string
			for k := r.Intn(2); k >= 0; k-- {
				// the destination may be another page
				tgt := pages[r.Intn(len(pages))].id
				as = append(as, ref(b.add(b.dict("Type", "/Annot", "Subtype", "/Link", "Rect", "[1 2 3 4]", "P", ref(p.id), "Dest", b.arr(ref(tgt), "/XYZ", "0", "0", "0"), "Contents", b.infoString()))))
			}
			annotAll = append(annotAll, as...)
			v := b.arr(as...)
			if r.Intn(3) == 0 {
				v = ref(b.add(v))
			}
			kv = append(kv, "Annots", v)
		}
		if s.Extra {
			if r.Intn(2) == 0 {
				kv = append(kv, "Group", b.dict("Type", "/Group", "S", "/Transparency", "CS", "/DeviceRGB"))
			}
			if r.Intn(2) == 0 {
				kv = append(kv, "CropBox", "[0 0 100.5 200]")
			}
			if r.Intn(3) == 0 {
				kv = append(kv, "Rotate", []string{"0", "90", "-90"}[r.Intn(3)])
			}
			if r.Intn(3) == 0 {
				kv = append(kv, "Tabs", "/S", "StructParents", fmt.Sprint(i))
			}
		}
		kv = b.notes(kv)
		if s.Form && r.Intn(2) == 0 {
			fid := b.add(b.dict("Type", "/Annot", "Subtype", "/Widget", "FT", "/Tx", "T", fmt.Sprintf("(field%d)", i), "V", b.infoString(), "Rect", "[10 10 90 30]", "P", ref(p.id), "DA", "(/Helv 9 Tf 0 g)",
				"AP", b.dict("N", ref(b.stream([]byte("/Tx BMC q Q EMC"), r.Intn(3), "Type", "/XObject", "Subtype", "/Form", "BBox", "[0 0 80 20]")))))
			fields = append(fields, ref(fid))
			done := false
			for j := 0; j+1 < len(kv); j += 2 {
				done = done || kv[j] == "Annots"
			}
			if !done {
				kv = append(kv, "Annots", b.arr(ref(fid)))
			}
		}
		// any order of the keys
		n := len(kv) / 2
		perm := r.Perm(n)
		var kv2 []string
		for _, j := range perm {
			kv2 = append(kv2, kv[2*j], kv[2*j+1])
		}
		b.set(p.id, b.dict(kv2...))
	}
	// tree
	byID := map[int]*node{}
	for _, n := range nodes {
		byID[n.id] = n
	}
	var count func(n *node) int
	count = func(n *node) int {
		c := 0
		for _, k := range n.kids {
			if kn, ok := byID[k]; ok {
				c += count(kn)
			} else {
				c++
			}
		}
		n.count = c
		return c
	}
	count(root)
	for _, n := range nodes {
		var refs []string
		for _, k := range n.kids {
			refs = append(refs, ref(k))
		}
		kv := append([]string{"Type", "/Pages", "Kids", b.arr(refs...), "Count", fmt.Sprint(n.count)}, n.kv...)
		if n.parent != 0 {
			kv = append(kv, "Parent", ref(n.parent))
		}
		kv = b.notes(kv)
		b.set(n.id, b.dict(kv...))
	}
	ckv := []string{"Type", "/Catalog", "Pages", ref(root.id)}
	if s.Outline {
		ol := b.alloc()
		it1, it2 := b.alloc(), b.alloc()
		b.set(ol, b.dict("Type", "/Outlines", "First", ref(it1), "Last", ref(it2), "Count", "2"))
		b.set(it1, b.dict("Title", b.infoString(), "Parent", ref(ol), "Next", ref(it2), "Dest", b.arr(ref(pages[r.Intn(len(pages))].id), "/Fit")))
		b.set(it2, b.dict("Title", b.infoString(), "Parent", ref(ol), "Prev", ref(it1), "Dest", b.arr(ref(pages[r.Intn(len(pages))].id), "/XYZ", "null", "100", "0")))
		ckv = append(ckv, "Outlines", ref(ol), "OpenAction", b.arr(ref(pages[r.Intn(len(pages))].id), "/Fit"), "PageMode", "/UseOutlines")
	}
	if s.Extra {
		ckv = append(ckv, "Metadata", ref(b.stream([]byte("<?xpacket begin=''?><x:xmpmeta>meta "+fmt.Sprint(r.Intn(1e6))+"</x:xmpmeta>"), 0, "Type", "/Metadata", "Subtype", "/XML")))
		ckv = append(ckv, "PageLabels", b.dict("Nums", b.arr("0", b.dict("S", "/D"))))
		ckv = append(ckv, "Lang", "(en-US)")
	}
	if s.Binary {
		ckv = append(ckv, "Attach", b.arr(ref(b.stream(b.binary(1+r.Intn(300)), 0)), ref(b.stream(b.binary(1+r.Intn(300)), 1))))
	}
	if s.Extra && r.Intn(2) == 0 {
		var vs []string
		for _, v := range []string{"true", "null", "-17.5", "+3", ".5", "/Some#20Name", "42", "[]", "<< >>", "[[1 2] [3 [4]]]", b.infoString(), b.noteString()} {
			if r.Intn(2) == 0 {
				vs = append(vs, ref(b.add(v)))
			} else {
				vs = append(vs, v)
			}
		}
		ckv = append(ckv, "Odds", b.arr(vs...))
	}
	if s.Binary && s.Upd == 0 && !s.Lin && r.Intn(2) == 0 {
		ckv = append(ckv, "Lines", ref(b.stream([]byte(strings.Repeat("0000000017 00000 n \n0000000000 65535 f \n", 1+r.Intn(3))), r.Intn(2))))
	}
	if s.Many > 0 {
		var refs []string
		for i := 0; i < s.Many; i++ {
			refs = append(refs, ref(b.add(fmt.Sprintf("[%d (x%d)]", i, i))))
		}
		ckv = append(ckv, "Filler", ref(b.add(b.arr(refs...))))
	}
	if s.Form {
		ckv = append(ckv, "AcroForm", b.dict("Fields", "["+strings.Join(fields, " ")+"]", "DA", "(/Helv 0 Tf 0 g )", "NeedAppearances", "true"))
		ckv = append(ckv, "Names", b.dict("Dests", ref(b.add(b.dict("Names", b.arr(b.infoString(), b.arr(ref(pages[r.Intn(len(pages))].id), "/Fit")))))))
		ckv = append(ckv, "ViewerPreferences", b.dict("DisplayDocTitle", "true"))
	}
	ckv = b.notes(ckv)
	if s.Strs {
		ckv = append(ckv, "File", ref(b.stream(b.binary(1+r.Intn(60)), r.Intn(3), b.notes(nil)...)))
	}
	b.set(cat, b.dict(ckv...))
	info := 0
	if s.Info {
		title := b.infoString()
		if r.Intn(3) == 0 {
			title = ref(b.add(title))
		}
		info = b.add(b.dict("Title", title, "Author", b.infoString(), "Producer", b.infoString(), "CreationDate", "(D:20200101000000Z)"))
	}
	return b.write(cat, info)
}

// writer puts the parts of the file together.
type writer struct {
	b    *builder
	o    bytes.Buffer
	e    string
	size int
}

func (w *writer) obj(ob obj) int {
	off := w.o.Len()
	sep := w.e
	if w.b.s.Compact {
		sep = ""
		if ob.body[0] != '<' && ob.body[0] != '[' {
			sep = " "
		}
	}
	fmt.Fprintf(&w.o, "%d 0 obj%s%s%sendobj%s", ob.id, sep, ob.body, w.e, w.e)
	return off
}

func (w *writer) ent(off, g int, k string) {
	if w.b.s.CRLF {
		fmt.Fprintf(&w.o, "%010d %05d %s\r\n", off, g, k)
	} else {
		fmt.Fprintf(&w.o, "%010d %05d %s \n", off, g, k)
	}
}

// subsections of the numbers that are in offs (-1: free)
func (w *writer) subsections(offs map[int]int) {
	for i := 0; i < w.size; {
		if _, ok := offs[i]; !ok {
			i++
			continue
		}
		j := i
		for {
			if _, ok := offs[j]; !ok {
				break
			}
			j++
		}
		fmt.Fprintf(&w.o, "%d %d%s", i, j-i, w.e)
		for ; i < j; i++ {
			switch {
			case i == 0:
				w.ent(0, 65535, "f")
			case offs[i] < 0:
				w.ent(0, 1, "f")
			default:
				w.ent(offs[i], 0, "n")
			}
		}
	}
}

// all numbers
func (w *writer) table(offs map[int]int) {
	fmt.Fprintf(&w.o, "0 %d%s", w.size, w.e)
	var free []int
	for i := 1; i < w.size; i++ {
		if _, ok := offs[i]; !ok {
			free = append(free, i)
		}
	}
	nextFree := func(i int) int {
		for _, f := range free {
			if f > i {
				return f
			}
		}
		return 0
	}
	for i := 0; i < w.size; i++ {
		if off, ok := offs[i]; ok {
			w.ent(off, 0, "n")
		} else if i == 0 {
			w.ent(nextFree(0), 65535, "f")
		} else {
			w.ent(nextFree(i), 1, "f")
		}
	}
}

func (w *writer) end(xo int, dict string) {
	e := w.e
	w.o.WriteString("trailer" + e + dict + e + "startxref" + e)
	fmt.Fprintf(&w.o, "%d%s%%%%EOF%s", xo, e, e)
}

func (b *builder) trailer(size, root, info, prev int) string {
	kv := []string{"Size", fmt.Sprint(size), "Root", ref(root)}
	if info != 0 {
		kv = append(kv, "Info", ref(info))
	}
	if b.r.Intn(2) == 0 {
		kv = append(kv, "ID", "[<0123456789abcdef0123456789abcdef><0123456789abcdef0123456789abcdef>]")
	}
	if prev >= 0 {
		kv = append(kv, "Prev", fmt.Sprintf("%010d", prev))
	}
	return string(b.spread([]byte(b.dict(kv...))))
}

func (b *builder) write(cat, info int) []byte {
	r := b.r
	if b.s.Shuffle {
		r.Shuffle(len(b.objs), func(i, j int) { b.objs[i], b.objs[j] = b.objs[j], b.objs[i] })
	} else {
		sort.SliceStable(b.objs, func(i, j int) bool { return b.objs[i].id < b.objs[j].id })
	}
	w := &writer{b: b, e: b.eol}
	w.o.WriteString("%PDF-1.4" + w.e)
	if r.Intn(2) == 0 {
		w.o.WriteString("%\xe2\xe3\xcf\xd3" + w.e)
	}
	for i := range b.objs {
		b.objs[i].body = b.spread(b.objs[i].body)
	}
	w.size = b.top + 1
	switch {
	case b.s.Upd > 0:
		b.updates(w, cat, info)
		return w.o.Bytes()
	case b.s.Lin:
		b.linear(w, cat, info)
		return w.o.Bytes()
	}
	offs := map[int]int{}
	for _, ob := range b.objs {
		offs[ob.id] = w.obj(ob)
	}
	xo := w.o.Len()
	w.o.WriteString("xref" + w.e)
	if b.s.Subsec {
		offs[0] = -1
		w.subsections(offs)
	} else {
		w.table(offs)
	}
	w.end(xo, b.trailer(w.size, cat, info, -1))
	return w.o.Bytes()
}

// oldVersion: what an object was before it was changed
func (b *builder) oldVersion(o obj) obj {
	t := string(o.body)
	switch {
	case b.r.Intn(4) == 0: // written again without a change
	case strings.Contains(t, "endstream"):
		d := "0 0 1 RG 3 3 m 9 9 l S % before"
		t = fmt.Sprintf("<</Length %d>>stream\n%s\nendstream", len(d), d)
	case strings.Contains(t, "/Kids"):
		t = "<</Type /Pages /Kids [] /Count 0>>"
	case strings.Contains(t, "/Catalog"):
		t = "<</Type /Catalog /PageMode /UseNone>>"
	case strings.Contains(t, "/Parent"):
		t = "<</Type /Page /MediaBox [0 0 50 60] /Before true>>"
	case strings.HasPrefix(t, "<<"):
		t = "<</Before (the change)>>"
	case strings.HasPrefix(t, "["):
		t = "[0 0 7 7]"
	default:
		t = "null"
	}
	return obj{o.id, []byte(t)}
}

// updates: the file was changed by appending
func (b *builder) updates(w *writer, cat, info int) {
	r, n := b.r, b.s.Upd
	root, inf := cat, info
	base := map[int]bool{}
	var extra []obj
	fresh := func(body string) int {
		w.size++
		extra = append(extra, obj{w.size - 1, []byte(body)})
		return w.size - 1
	}
	if r.Intn(3) == 0 { // even the catalog was another one
		root = fresh("<</Type /Catalog /Pages " + ref(fresh("<</Type /Pages /Kids [] /Count 0>>")) + ">>")
	}
	if info != 0 && r.Intn(3) == 0 {
		inf = fresh("<</Title (before)>>")
	}
	gone := fresh("(to be deleted)")
	last := map[int]int{} // the update that wrote an object last
	for _, o := range b.objs {
		if r.Intn(3) == 0 {
			last[o.id] = 1 + r.Intn(n)
		}
		base[o.id] = last[o.id] == 0 || o.id == cat || r.Intn(4) > 0
	}
	prev := -1
	for k := 0; k <= n; k++ {
		offs := map[int]int{}
		if k == 0 {
			offs[0] = -1
			for _, o := range extra {
				offs[o.id] = w.obj(o)
			}
		}
		for _, o := range b.objs {
			switch {
			case last[o.id] == k:
				offs[o.id] = w.obj(o)
			case k == 0 && base[o.id], k > 0 && k < last[o.id] && r.Intn(4) == 0:
				offs[o.id] = w.obj(b.oldVersion(o))
			}
		}
		if k == n {
			offs[gone] = -1
			if r.Intn(2) == 0 {
				offs[0] = -1
			}
			root, inf = cat, info
		}
		xo := w.o.Len()
		w.o.WriteString("xref" + w.e)
		if len(offs) == 0 {
			w.o.WriteString("0 0" + w.e)
		}
		if k == 0 && !b.s.Subsec {
			delete(offs, 0)
			w.table(offs)
		} else {
			w.subsections(offs)
		}
		w.end(xo, b.trailer(w.size, root, inf, prev))
		prev = xo
		if k < n && r.Intn(2) == 0 {
			w.o.WriteString(w.e)
		}
	}
}

// linear: the first xref section is at the begin of the file
func (b *builder) linear(w *writer, cat, info int) {
	head := append([]byte(nil), w.o.Bytes()...)
	cut := 1 + b.r.Intn(w.size)
	tr := ""
	offs := map[int]int{}
	first, second := 0, 0
	for pass := 0; pass < 2; pass++ {
		a, z := map[int]int{}, map[int]int{}
		for id, o := range offs {
			if id >= cut {
				a[id] = o
			} else {
				z[id] = o
			}
		}
		if pass == 0 {
			for _, o := range b.objs {
				if o.id >= cut {
					a[o.id] = 0
				}
			}
			tr = b.trailer(w.size, cat, info, 1234567890)
		}
		w.o.Reset()
		w.o.Write(head)
		first = w.o.Len()
		w.o.WriteString("xref" + w.e)
		if len(a) == 0 {
			w.o.WriteString("0 0" + w.e)
		}
		w.subsections(a)
		w.end(0, strings.Replace(tr, "1234567890", fmt.Sprintf("%010d", second), 1))
		for _, o := range b.objs {
			if o.id >= cut {
				offs[o.id] = w.obj(o)
			}
		}
		for _, o := range b.objs {
			if o.id < cut {
				offs[o.id] = w.obj(o)
				z[o.id] = offs[o.id]
			}
		}
		second = w.o.Len()
		z[0] = -1
		w.o.WriteString("xref" + w.e)
		w.subsections(z)
		w.end(first, string(b.dict("Size", fmt.Sprint(cut))))
	}
}

// Random draws a description.
func RandomTmpl(r *rand.Rand, maxPages int) Tmpl {
	fl := func(n int) bool { return r.Intn(n) == 0 }
	s := Tmpl{Seed: r.Uint64() >> 1, Pages: 1 + r.Intn(maxPages)}
	if fl(3) {
		s.Nest = 1 + r.Intn(3)
	}
	s.Res = r.Intn(7)
	s.Box = r.Intn(4)
	s.Cont = []int{0, 0, 1, 2, 3, 4, 5, 5}[r.Intn(8)]
	s.SubInd, s.NoSub, s.Clash = fl(3), fl(6), fl(3)
	s.LenInd, s.CRLF, s.Compact, s.Sparse, s.Shuffle, s.Subsec = fl(3), fl(4), fl(3), fl(3), fl(3), fl(4)
	s.Info, s.Annots, s.Outline, s.Extra, s.High, s.Binary = fl(2), fl(3), fl(3), fl(2), fl(6), fl(3)
	s.Ws = fl(5)
	s.Strs, s.Form = fl(4), fl(5)
	s.Loose = fl(4)
	s.Mix = fl(4)
	if fl(6) {
		s.Upd = 1 + r.Intn(3)
	} else if fl(10) {
		s.Lin = true
	}
	if fl(40) {
		s.Many = 1000 + r.Intn(100)
	} else if fl(20) {
		s.Many = r.Intn(60)
	}
	if fl(25) {
		s.Jump = []int{100, 260, 1000, 10000, 66000}[r.Intn(5)]
		if s.Jump > 2000 && !fl(4) {
			s.Jump = 300
		}
	}
	return s
}

// Shrinks gives simpler descriptions.
func (s Tmpl) Shrinks() []Tmpl {
	var out []Tmpl
	add := func(f func(*Tmpl)) {
		c := s
		f(&c)
		if c != s {
			out = append(out, c)
		}
	}
	if s.File != "" {
		return nil
	}
	add(func(t *Tmpl) { *t = Tmpl{Seed: s.Seed, Pages: s.Pages} })
	add(func(t *Tmpl) { *t = Tmpl{Seed: 1, Pages: s.Pages} })
	add(func(t *Tmpl) { t.Pages = 1 })
	add(func(t *Tmpl) { t.Pages = (s.Pages + 1) / 2 })
	add(func(t *Tmpl) {
		if t.Pages > 1 {
			t.Pages--
		}
	})
	add(func(t *Tmpl) { t.Nest = 0 })
	add(func(t *Tmpl) { t.Res = 0 })
	add(func(t *Tmpl) { t.Box = 0 })
	add(func(t *Tmpl) { t.Cont = 0 })
	add(func(t *Tmpl) { t.Many = 0 })
	add(func(t *Tmpl) { t.Jump = 0 })
	add(func(t *Tmpl) { t.Upd = 0 })
	add(func(t *Tmpl) {
		if t.Upd > 1 {
			t.Upd--
		}
	})
	add(func(t *Tmpl) { t.Lin = false })
	for _, f := range []func(*Tmpl) *bool{
		func(t *Tmpl) *bool { return &t.SubInd }, func(t *Tmpl) *bool { return &t.NoSub }, func(t *Tmpl) *bool { return &t.Clash },
		func(t *Tmpl) *bool { return &t.LenInd }, func(t *Tmpl) *bool { return &t.CRLF }, func(t *Tmpl) *bool { return &t.Compact },
		func(t *Tmpl) *bool { return &t.Sparse }, func(t *Tmpl) *bool { return &t.Shuffle }, func(t *Tmpl) *bool { return &t.Subsec },
		func(t *Tmpl) *bool { return &t.Info }, func(t *Tmpl) *bool { return &t.Annots }, func(t *Tmpl) *bool { return &t.Outline },
		func(t *Tmpl) *bool { return &t.Extra }, func(t *Tmpl) *bool { return &t.High }, func(t *Tmpl) *bool { return &t.Ws }, func(t *Tmpl) *bool { return &t.Strs }, func(t *Tmpl) *bool { return &t.Form }, func(t *Tmpl) *bool { return &t.Loose }, func(t *Tmpl) *bool { return &t.Mix }, func(t *Tmpl) *bool { return &t.Binary },
	} {
		f := f
		add(func(t *Tmpl) { *f(t) = false })
	}
	return out
}

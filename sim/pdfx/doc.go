package pdfx

import (
	"bytes"
	"compress/zlib"
	"crypto/md5"
	"crypto/rc4"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
)

type Ind struct {
	N, G, Off, End int
	O              Obj
}

type Page struct {
	N    int  // object number
	D    Dict // the page's own dictionary
	Inh  Dict // effective Resources, MediaBox, CropBox, Rotate
	Path []int
}

type Doc struct {
	B       []byte
	Objs    map[int]*Ind
	Trailer Dict
	Free    map[int]bool
	Pages   []Page
	Nodes   map[int]bool // intermediate nodes of the page tree
	Root    Dict
	// Problems are violations of the file structure.
	Problems []string
	// Dangling lists references to objects that do not exist.
	Dangling []string
	// Dups are keys that occur twice in a dictionary.
	Dups    []string
	Key     []byte // file key when decrypted
	Encrypt Dict
}

func (d *Doc) bad(f string, a ...interface{}) {
	if len(d.Problems) < 40 {
		d.Problems = append(d.Problems, fmt.Sprintf(f, a...))
	}
}

func (d *Doc) xrefSection(xo int, strict bool) (ents []ent, tr Dict) {
	b := d.B
	l := &Lexer{B: b, P: xo}
	for !strict && l.P < len(b) && IsSpace(b[l.P]) && l.P < xo+4 {
		l.P++
	}
	if !bytes.HasPrefix(b[l.P:], []byte("xref")) {
		d.bad("no xref at startxref offset %d", xo)
		return
	}
	l.P += 4
	next := map[int]int{}
	maxN := -1
	for {
		for l.P < len(b) && IsSpace(b[l.P]) {
			l.P++
		}
		if bytes.HasPrefix(b[l.P:], []byte("trailer")) {
			l.P += 7
			break
		}
		s1 := l.word()
		l.Skip()
		s2 := l.word()
		first, e1 := strconv.Atoi(s1)
		cnt, e2 := strconv.Atoi(s2)
		if e1 != nil || e2 != nil || cnt < 0 || first < 0 {
			d.bad("bad xref subsection %q %q", s1, s2)
			return
		}
		for l.P < len(b) && b[l.P] == ' ' {
			l.P++
		}
		if l.P < len(b) && b[l.P] == '\r' {
			l.P++
		}
		if l.P < len(b) && b[l.P] == '\n' {
			l.P++
		}
		for i := 0; i < cnt; i++ {
			if l.P+20 > len(b) {
				d.bad("xref table cut off")
				return
			}
			e := b[l.P : l.P+20]
			l.P += 20
			ok := e[10] == ' ' && e[16] == ' ' && (e[17] == 'n' || e[17] == 'f')
			for k := 0; ok && k < 16; k++ {
				if k != 10 && (e[k] < '0' || e[k] > '9') {
					ok = false
				}
			}
			eol := string(e[18:20])
			if !ok || (eol != " \n" && eol != "\r\n" && eol != " \r") {
				d.bad("xref entry %d is malformed: %q", first+i, e)
				return
			}
			off, _ := strconv.Atoi(string(e[:10]))
			g, _ := strconv.Atoi(string(e[11:16]))
			n := first + i
			if n > maxN {
				maxN = n
			}
			if e[17] == 'n' {
				ents = append(ents, ent{n, g, off})
			} else {
				d.Free[n] = true
				next[n] = off
			}
		}
	}
	if strict {
		if !d.Free[0] {
			d.bad("xref entry 0 is not free")
		}
		for n, nx := range next {
			if nx != 0 && !d.Free[nx] {
				d.bad("free xref entry %d points to %d which is not free", n, nx)
			}
		}
	}
	o, err := l.Object(true)
	if err != nil {
		d.bad("trailer: %v", err)
		return
	}
	t, ok := o.(Dict)
	if !ok {
		d.bad("trailer is not a dictionary")
		return
	}
	if strict {
		if len(l.Dup) > 0 {
			d.bad("trailer has the key %v twice", l.Dup)
		}
		l.Skip()
		if !bytes.HasPrefix(b[l.P:], []byte("startxref")) {
			d.bad("no startxref after the trailer")
		}
		if sz, ok := t["Size"].(Num); !ok || int(sz.V) != maxN+1 {
			d.bad("trailer /Size is %s, the table ends at object %d", Show(t["Size"]), maxN)
		}
	}
	return ents, t
}

// Parse reads a file strictly: the cross reference table is believed and then
// checked against the bytes.
func Parse(b []byte) *Doc { return parse(b, false) }

// ParseTemplate reads a file some other program wrote: older cross reference
// sections are followed and habits of such programs are tolerated.
func ParseTemplate(b []byte) *Doc { return parse(b, true) }

type ent struct {
	n, g, off int
}

func parse(b []byte, loose bool) *Doc {
	d := &Doc{B: b, Objs: map[int]*Ind{}, Free: map[int]bool{}, Nodes: map[int]bool{}}
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) {
		d.bad("header is missing")
		return d
	}
	tail := bytes.TrimRight(b, "\r\n \t\x00")
	if !bytes.HasSuffix(tail, []byte("%%EOF")) {
		d.bad("file does not end with %%%%EOF")
		return d
	}
	si := bytes.LastIndex(tail, []byte("startxref"))
	if si < 0 {
		d.bad("startxref is missing")
		return d
	}
	f := strings.Fields(string(tail[si+9 : len(tail)-5]))
	if len(f) != 1 {
		d.bad("startxref without offset")
		return d
	}
	xo, err := strconv.Atoi(f[0])
	if err != nil || xo < 0 || xo >= len(b) {
		d.bad("bad startxref %q", f[0])
		return d
	}
	var ents []ent
	have := map[int]bool{}
	bodyEnd := xo
	for hop := 0; hop < 10; hop++ {
		es, tr := d.xrefSection(xo, hop == 0 && !loose)
		if tr == nil {
			return d
		}
		for _, e := range es {
			if hop == 0 || !have[e.n] {
				ents = append(ents, e)
			}
		}
		for _, e := range es {
			have[e.n] = true
		}
		if hop == 0 {
			d.Trailer = tr
		} else {
			for k, v := range tr {
				if _, ok := d.Trailer[k]; !ok {
					d.Trailer[k] = v
				}
			}
		}
		pv, ok := tr["Prev"].(Num)
		if !ok {
			break
		}
		if !loose {
			d.bad("trailer /Prev")
			break
		}
		xo = int(pv.V)
		if xo < 0 || xo >= len(b) {
			d.bad("bad /Prev")
			return d
		}
	}
	delete(d.Trailer, "Prev")
	if loose {
		bodyEnd = len(b)
	}
	xo = bodyEnd
	// objects, in two passes because /Length may be indirect
	sort.Slice(ents, func(i, j int) bool { return ents[i].off < ents[j].off })
	type pend struct {
		ind *Ind
		lx  *Lexer
		dct Dict
	}
	var pends []pend
	for _, e := range ents {
		if _, dup := d.Objs[e.n]; dup {
			d.bad("object %d is twice in the xref", e.n)
			continue
		}
		if e.off >= xo {
			d.bad("object %d: offset %d is not in the body", e.n, e.off)
			continue
		}
		lx := &Lexer{B: b[:xo], P: e.off}
		for loose && lx.P < len(lx.B) && IsSpace(lx.B[lx.P]) && lx.P < e.off+4 {
			lx.P++
		}
		start := lx.P
		s1 := lx.word()
		lx.Skip()
		s2 := lx.word()
		lx.Skip()
		s3 := lx.word()
		if s1 != strconv.Itoa(e.n) || s2 != strconv.Itoa(e.g) || s3 != "obj" {
			d.bad("xref offset of object %d: found %q %q %q there", e.n, cut(s1), cut(s2), cut(s3))
			continue
		}
		o, err := lx.Object(true)
		if err != nil {
			d.bad("object %d: %v", e.n, err)
			continue
		}
		if k, ok := o.(Kw); ok {
			if k == "endobj" {
				d.bad("object %d is empty", e.n)
			} else {
				d.bad("object %d: keyword %q", e.n, cut(string(k)))
			}
			continue
		}
		for _, k := range lx.Dup {
			d.Dups = append(d.Dups, k)
		}
		ind := &Ind{N: e.n, G: e.g, Off: start, O: o}
		d.Objs[e.n] = ind
		lx.Skip()
		if dct, ok := o.(Dict); ok && bytes.HasPrefix(lx.B[lx.P:], []byte("stream")) {
			lx.P += 6
			pends = append(pends, pend{ind, lx, dct})
			continue
		}
		if !bytes.HasPrefix(lx.B[lx.P:], []byte("endobj")) {
			d.bad("object %d: no endobj, found %q", e.n, cut(string(lx.B[lx.P:min(len(lx.B), lx.P+20)])))
			continue
		}
		ind.End = lx.P + 6
	}
	for _, p := range pends {
		lx := p.lx
		if bytes.HasPrefix(lx.B[lx.P:], []byte("\r\n")) {
			lx.P += 2
		} else if bytes.HasPrefix(lx.B[lx.P:], []byte("\n")) {
			lx.P++
		} else {
			d.bad("object %d: no end of line after stream", p.ind.N)
		}
		ln, ok := d.Resolve(p.dct["Length"]).(Num)
		n := int(ln.V)
		if !ok || n < 0 || lx.P+n > len(lx.B) {
			d.bad("object %d: bad stream /Length %s", p.ind.N, Show(p.dct["Length"]))
			continue
		}
		raw := lx.B[lx.P : lx.P+n]
		q := lx.P + n
		// the writer may put one or two end-of-line marks before the keyword;
		// readers go by /Length and skip them
		for k := 0; k < 2; k++ {
			if bytes.HasPrefix(lx.B[q:], []byte("\r\n")) {
				q += 2
			} else if bytes.HasPrefix(lx.B[q:], []byte("\n")) || bytes.HasPrefix(lx.B[q:], []byte("\r")) {
				q++
			}
		}
		if !bytes.HasPrefix(lx.B[q:], []byte("endstream")) {
			d.bad("object %d: stream is not %d bytes long (no endstream there)", p.ind.N, n)
			continue
		}
		p.ind.O = &Stream{D: p.dct, Raw: raw}
		lx.P = q + 9
		lx.Skip()
		if !bytes.HasPrefix(lx.B[lx.P:], []byte("endobj")) {
			d.bad("object %d: no endobj after the stream", p.ind.N)
			continue
		}
		p.ind.End = lx.P + 6
	}
	// nothing but the listed objects in the body
	var inds []*Ind
	for _, i := range d.Objs {
		if i.End > 0 {
			inds = append(inds, i)
		}
	}
	if len(d.Problems) == 0 && !loose {
		sort.Slice(inds, func(i, j int) bool { return inds[i].Off < inds[j].Off })
		p := 0
		for _, i := range append(inds, &Ind{N: -1, Off: xo}) {
			if i.Off < p {
				d.bad("object %d overlaps the one before", i.N)
				break
			}
			gap := &Lexer{B: b[:i.Off], P: p}
			gap.Skip()
			if gap.P < i.Off {
				d.bad("unlisted bytes before object %d: %q", i.N, cut(string(b[gap.P:i.Off])))
				break
			}
			p = i.End
		}
	}
	if len(d.Problems) > 0 {
		return d
	}
	d.structure()
	return d
}

func cut(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

// Resolve follows references.
func (d *Doc) Resolve(o Obj) Obj {
	for k := 0; k < 50; k++ {
		r, ok := o.(Ref)
		if !ok {
			return o
		}
		i := d.Objs[r.N]
		if i == nil || i.G != r.G {
			return Null{}
		}
		o = i.O
	}
	return Null{}
}

func (d *Doc) Dict(o Obj) Dict {
	switch v := d.Resolve(o).(type) {
	case Dict:
		return v
	case *Stream:
		return v.D
	}
	return nil
}

var inheritable = []Name{"Resources", "MediaBox", "CropBox", "Rotate"}

func (d *Doc) structure() {
	rr, ok := d.Trailer["Root"].(Ref)
	if !ok {
		d.bad("trailer /Root is not a reference")
		return
	}
	d.Root, ok = d.Resolve(rr).(Dict)
	if !ok || d.Root["Type"] != Name("Catalog") {
		d.bad("/Root %d is not a catalog", rr.N)
		return
	}
	if i, ok := d.Trailer["Info"]; ok {
		if _, isD := d.Resolve(i).(Dict); !isD {
			d.bad("trailer /Info is not a dictionary")
		}
	}
	if e, ok := d.Trailer["Encrypt"]; ok {
		d.Encrypt = d.Dict(e)
		if d.Encrypt == nil {
			d.bad("trailer /Encrypt is not a dictionary")
		}
		if a, ok := d.Trailer["ID"].(Arr); !ok || len(a) != 2 {
			d.bad("encrypted file without /ID")
		}
	}
	// references
	seen := map[int]bool{}
	var walk func(o Obj, at string)
	walk = func(o Obj, at string) {
		switch v := o.(type) {
		case Ref:
			i := d.Objs[v.N]
			if i == nil || i.G != v.G {
				d.Dangling = append(d.Dangling, fmt.Sprintf("%s -> %d %d R", at, v.N, v.G))
				return
			}
			if !seen[v.N] {
				seen[v.N] = true
				walk(i.O, fmt.Sprintf("object %d", v.N))
			}
		case Arr:
			for _, e := range v {
				walk(e, at)
			}
		case Dict:
			for _, k := range SortedKeys(v) {
				walk(v[k], at+"/"+string(k))
			}
		case *Stream:
			walk(v.D, at)
		}
	}
	walk(d.Trailer, "trailer")
	// page tree
	pr, ok := d.Root["Pages"].(Ref)
	if !ok {
		d.bad("catalog /Pages is not a reference")
		return
	}
	onPath := map[int]bool{}
	pagesSeen := map[int]bool{}
	var visit func(n int, parent int, inh Dict, path []int) int
	visit = func(n int, parent int, inh Dict, path []int) int {
		if onPath[n] {
			d.bad("page tree has a loop at %d", n)
			return 0
		}
		nd, ok := d.Resolve(Ref{n, 0}).(Dict)
		if !ok {
			d.bad("page tree node %d is not a dictionary", n)
			return 0
		}
		if parent != 0 {
			if r, ok := nd["Parent"].(Ref); !ok || r.N != parent {
				d.bad("page tree node %d has /Parent %s, it is a kid of %d", n, Show(nd["Parent"]), parent)
			}
		}
		eff := Dict{}
		for k, v := range inh {
			eff[k] = v
		}
		for _, k := range inheritable {
			if v, ok := nd[k]; ok {
				eff[k] = v
			}
		}
		switch nd["Type"] {
		case Name("Page"):
			if pagesSeen[n] {
				d.bad("page object %d is twice in the page tree", n)
			}
			pagesSeen[n] = true
			d.Pages = append(d.Pages, Page{N: n, D: nd, Inh: eff, Path: append([]int(nil), path...)})
			return 1
		case Name("Pages"):
			d.Nodes[n] = true
			onPath[n] = true
			kids, ok := d.Resolve(nd["Kids"]).(Arr)
			if !ok {
				d.bad("page tree node %d: /Kids is %s", n, Show(nd["Kids"]))
				return 0
			}
			c := 0
			for _, k := range kids {
				r, ok := k.(Ref)
				if !ok {
					d.bad("page tree node %d: kid is not a reference", n)
					continue
				}
				c += visit(r.N, n, eff, append(path, n))
			}
			onPath[n] = false
			if cn, ok := d.Resolve(nd["Count"]).(Num); !ok || int(cn.V) != c {
				d.bad("page tree node %d: /Count is %s, it has %d pages", n, Show(nd["Count"]), c)
			}
			return c
		}
		d.bad("page tree node %d has /Type %s", n, Show(nd["Type"]))
		return 0
	}
	visit(pr.N, 0, Dict{}, nil)
	for i, p := range d.Pages {
		if mb, ok := d.Resolve(p.Inh["MediaBox"]).(Arr); !ok || len(mb) != 4 {
			d.bad("page %d has no /MediaBox", i+1)
		}
		if r, ok := p.Inh["Resources"]; ok {
			if _, isD := d.Resolve(r).(Dict); !isD {
				d.bad("page %d: /Resources is not a dictionary", i+1)
			}
		}
		for _, r := range d.contentRefs(p) {
			if _, ok := d.Resolve(r).(*Stream); !ok {
				d.bad("page %d: /Contents %s is not a stream", i+1, Show(r))
			}
		}
	}
}

func (d *Doc) contentRefs(p Page) []Obj {
	c, ok := p.D["Contents"]
	if !ok {
		return nil
	}
	switch v := d.Resolve(c).(type) {
	case Arr:
		return v
	case *Stream:
		return []Obj{c}
	}
	return []Obj{c}
}

// Content is the decoded content of a page, one element per stream.
func (d *Doc) Content(p Page) ([][]byte, error) {
	var out [][]byte
	for _, r := range d.contentRefs(p) {
		s, ok := d.Resolve(r).(*Stream)
		if !ok {
			return nil, fmt.Errorf("content %s is not a stream", Show(r))
		}
		b, err := d.Decode(s)
		if err != nil {
			return nil, err
		}
		out = append(out, b)
	}
	return out, nil
}

var ErrFilter = errors.New("filter is not decoded here")

// Decode undoes the filters of a stream.
func (d *Doc) Decode(s *Stream) ([]byte, error) {
	var fs []Name
	switch v := d.Resolve(s.D["Filter"]).(type) {
	case Name:
		fs = []Name{v}
	case Arr:
		for _, e := range v {
			n, ok := d.Resolve(e).(Name)
			if !ok {
				return nil, fmt.Errorf("bad /Filter")
			}
			fs = append(fs, n)
		}
	case nil, Null:
	default:
		return nil, fmt.Errorf("bad /Filter %s", Show(v))
	}
	b := s.Raw
	for k, f := range fs {
		if f != "FlateDecode" {
			return nil, ErrFilter
		}
		r, err := zlib.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		b, err = io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		var pm Dict
		switch v := d.Resolve(s.D["DecodeParms"]).(type) {
		case Dict:
			pm = v
		case Arr:
			if k < len(v) {
				pm = d.Dict(v[k])
			}
		}
		if pm != nil {
			b, err = unpredict(b, pm)
			if err != nil {
				return nil, err
			}
		}
	}
	return b, nil
}

func numOr(o Obj, def int) int {
	if n, ok := o.(Num); ok {
		return int(n.V)
	}
	return def
}

func unpredict(b []byte, pm Dict) ([]byte, error) {
	p := numOr(pm["Predictor"], 1)
	if p == 1 {
		return b, nil
	}
	if p < 10 {
		return nil, fmt.Errorf("predictor %d", p)
	}
	colors, bpc, cols := numOr(pm["Colors"], 1), numOr(pm["BitsPerComponent"], 8), numOr(pm["Columns"], 1)
	bpp := (colors*bpc + 7) / 8
	row := (colors*bpc*cols + 7) / 8
	var out []byte
	prev := make([]byte, row)
	for len(b) > 0 {
		if len(b) < row+1 {
			return nil, fmt.Errorf("predictor row cut off")
		}
		t := b[0]
		cur := append([]byte(nil), b[1:row+1]...)
		b = b[row+1:]
		for i := range cur {
			var a, c int
			if i >= bpp {
				a, c = int(cur[i-bpp]), int(prev[i-bpp])
			}
			up := int(prev[i])
			switch t {
			case 0:
			case 1:
				cur[i] += byte(a)
			case 2:
				cur[i] += byte(up)
			case 3:
				cur[i] += byte((a + up) / 2)
			case 4:
				pp := a + up - c
				pa, pb, pc := abs(pp-a), abs(pp-up), abs(pp-c)
				switch {
				case pa <= pb && pa <= pc:
					cur[i] += byte(a)
				case pb <= pc:
					cur[i] += byte(up)
				default:
					cur[i] += byte(c)
				}
			default:
				return nil, fmt.Errorf("row filter %d", t)
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out, nil
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

var pad = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

func padPw(pw []byte) []byte { return append(append([]byte(nil), pw...), pad...)[:32] }

func rc(key, b []byte) []byte {
	c, _ := rc4.NewCipher(key)
	o := make([]byte, len(b))
	c.XORKeyStream(o, b)
	return o
}

// UserKey authenticates with the user password (standard handler, V1 R2) and
// gives the file key.
func (d *Doc) UserKey(pw []byte) ([]byte, error) {
	e := d.Encrypt
	if e == nil {
		return nil, fmt.Errorf("not encrypted")
	}
	if e["Filter"] != Name("Standard") || numOr(e["V"], 0) != 1 || numOr(e["R"], 0) != 2 {
		return nil, fmt.Errorf("encryption dictionary: %s", Show(e))
	}
	o, ok1 := e["O"].(Str)
	u, ok2 := e["U"].(Str)
	p, ok3 := e["P"].(Num)
	if !ok1 || !ok2 || !ok3 || len(o) != 32 || len(u) != 32 {
		return nil, fmt.Errorf("encryption dictionary: /O has %d bytes, /U has %d bytes", len(o), len(u))
	}
	id := ""
	if a, ok := d.Trailer["ID"].(Arr); ok && len(a) > 0 {
		if s, ok := a[0].(Str); ok {
			id = string(s)
		}
	}
	pv := uint32(int32(int64(p.V)))
	h := append(padPw(pw), []byte(o)...)
	h = append(h, byte(pv), byte(pv>>8), byte(pv>>16), byte(pv>>24))
	h = append(h, id...)
	s := md5.Sum(h)
	key := s[:5]
	if !bytes.Equal(rc(key, pad), []byte(u)) {
		return nil, fmt.Errorf("user password does not open the file")
	}
	return append([]byte(nil), key...), nil
}

// OwnerOpens gives the user password that the owner password yields.
func (d *Doc) OwnerOpens(pw []byte) []byte {
	o, _ := d.Encrypt["O"].(Str)
	s := md5.Sum(padPw(pw))
	return rc(s[:5], []byte(o))
}

func PadPw(pw []byte) []byte { return padPw(pw) }

// Decrypt gives the document as a reader that knows the key sees it.
func (d *Doc) Decrypt(key []byte) *Doc {
	n := &Doc{B: d.B, Objs: map[int]*Ind{}, Trailer: d.Trailer, Free: d.Free, Nodes: map[int]bool{}, Key: key, Dups: d.Dups}
	enc := -1
	if r, ok := d.Trailer["Encrypt"].(Ref); ok {
		enc = r.N
	}
	for k, i := range d.Objs {
		c := *i
		if k != enc {
			h := append(append([]byte(nil), key...), byte(i.N), byte(i.N>>8), byte(i.N>>16), byte(i.G), byte(i.G>>8))
			s := md5.Sum(h)
			c.O = decObj(i.O, s[:10])
		}
		n.Objs[k] = &c
	}
	n.structure()
	n.Problems = append(n.Problems, d.Problems...)
	return n
}

func decObj(o Obj, k []byte) Obj {
	switch v := o.(type) {
	case Str:
		return Str(rc(k, []byte(v)))
	case Arr:
		a := make(Arr, len(v))
		for i := range v {
			a[i] = decObj(v[i], k)
		}
		return a
	case Dict:
		d := Dict{}
		for kk, e := range v {
			d[kk] = decObj(e, k)
		}
		return d
	case *Stream:
		return &Stream{D: decObj(v.D, k).(Dict), Raw: rc(k, v.Raw)}
	}
	return o
}

// Canon writes the document as seen from the trailer, independent of object
// numbers and of the layout of the file.
func (d *Doc) Canon() string {
	var b strings.Builder
	num := map[int]int{}
	var queue []int
	ref := func(n int) int {
		if k, ok := num[n]; ok {
			return k
		}
		num[n] = len(num) + 1
		queue = append(queue, n)
		return num[n]
	}
	var put func(o Obj)
	put = func(o Obj) {
		switch v := o.(type) {
		case Ref:
			if d.Objs[v.N] == nil {
				b.WriteString("null")
				return
			}
			fmt.Fprintf(&b, "#%d", ref(v.N))
		case Arr:
			b.WriteString("[")
			for _, e := range v {
				put(e)
				b.WriteString(" ")
			}
			b.WriteString("]")
		case Dict:
			b.WriteString("<<")
			for _, k := range SortedKeys(v) {
				fmt.Fprintf(&b, "/%q ", string(k))
				put(v[k])
			}
			b.WriteString(">>")
		case *Stream:
			put(v.D)
			fmt.Fprintf(&b, "stream %x", md5.Sum(v.Raw))
		default:
			show(&b, o)
		}
	}
	t := Dict{}
	for k, v := range d.Trailer {
		if k != "Size" {
			t[k] = v
		}
	}
	put(t)
	for i := 0; i < len(queue); i++ {
		fmt.Fprintf(&b, "\n#%d ", num[queue[i]])
		put(d.Objs[queue[i]].O)
	}
	return b.String()
}

// Order lists the object numbers.
func (d *Doc) Order() []int {
	var ns []int
	for n := range d.Objs {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	return ns
}

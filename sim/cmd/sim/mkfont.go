package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	gopdf "github.com/signintech/pdft/minigopdf"
	"github.com/signintech/pdft/minigopdf/fontmaker/core"

	"verif/sim/fontx"
)

// ---- the font maker: a font file and an encoding become a definition ----

type charMap [256]struct {
	uv   int
	name string
}

// mapFile makes an encoding: the file and what it says.
func mapFile(seed uint64, f *fontx.Font) ([]byte, *charMap) {
	r := rand.New(rand.NewSource(int64(seed >> 1)))
	var m charMap
	for i := range m {
		m[i].uv, m[i].name = -1, ".notdef"
	}
	runes := f.Runes(400)
	dense := 1 + r.Intn(8)
	low := r.Intn(3) == 0 // control codes too
	nl := []string{"\n", "\r\n"}[r.Intn(2)]
	var b bytes.Buffer
	order := r.Perm(256)
	if r.Intn(4) > 0 {
		sort.Ints(order)
	}
	for _, c := range order {
		if c < 32 && !low || r.Intn(8) >= dense {
			continue
		}
		uv := c
		switch k := r.Intn(10); {
		case k < 4 && len(runes) > 0:
			uv = int(runes[r.Intn(len(runes))])
		case k < 5:
			uv = r.Intn(0x3000)
		case k < 6 && r.Intn(4) == 0:
			uv = 0x10000 + r.Intn(0x10000)
		}
		name := fmt.Sprintf("uni%04X", uv)
		switch {
		case uv >= 'A' && uv <= 'Z' || uv >= 'a' && uv <= 'z':
			name = string(rune(uv))
		case r.Intn(12) == 0:
			name = ".notdef"
		case r.Intn(6) == 0:
			name = fmt.Sprintf("a%d.alt_%d", uv, c%3)
		}
		m[c].uv, m[c].name = uv, name
		hex := "%02X U+%04X %s"
		if r.Intn(8) == 0 {
			hex = "%02x U+%04x %s"
		}
		fmt.Fprintf(&b, "!"+hex, c, uv, name)
		b.WriteString(nl)
	}
	out := b.Bytes()
	if r.Intn(4) == 0 {
		out = bytes.TrimRight(out, "\r\n") // no end of the last line
	}
	return out, &m
}

// badMap breaks a line of an encoding.
func badMap(b []byte, seed uint64) []byte {
	l := strings.Split(strings.TrimRight(string(b), "\r\n"), "\n")
	bad := []string{"!4", "!41", "!41 U+0041", "!", "!100 U+0041 A", "!zz U+0041 A", "!41 U+zzzz A", "!-1 U+0041 A", "!41 U A", "x", "!FFFFFFFFFFFFFFFFF U+0041 A", "!41 U+FFFFFFFFFFFFFFFFFF A"}[seed%12]
	l[int(seed/12)%len(l)] = bad
	return []byte(strings.Join(l, "\n"))
}

// mkFontFile varies the parts of a font that only the font maker looks at.
type mkFontX struct {
	b         []byte
	f         *fontx.Font
	forbidden bool // its licence does not allow embedding
}

func tableAt(b []byte, tag string) (int, int) {
	for i := 0; i < int(binary.BigEndian.Uint16(b[4:])); i++ {
		e := b[12+16*i:]
		if string(e[:4]) == tag {
			return int(binary.BigEndian.Uint32(e[8:])), int(binary.BigEndian.Uint32(e[12:]))
		}
	}
	return -1, 0
}

// psName finds the PostScript name of a font.
func psName(b []byte) []byte {
	o, n := tableAt(b, "name")
	if o < 0 {
		return nil
	}
	t := b[o : o+n]
	for i := 0; i < int(binary.BigEndian.Uint16(t[2:])); i++ {
		e := t[6+12*i:]
		if binary.BigEndian.Uint16(e[6:]) == 6 {
			p := int(binary.BigEndian.Uint16(t[4:])) + int(binary.BigEndian.Uint16(e[10:]))
			return t[p : p+int(binary.BigEndian.Uint16(e[8:]))]
		}
	}
	return nil
}

func mkFontFile(spec *FontSpec, seed uint64, licence bool) *mkFontX {
	in := fontInput(spec)
	x := &mkFontX{b: append([]byte(nil), in.b...)}
	r := rand.New(rand.NewSource(int64(seed >> 1)))
	os2, _ := tableAt(x.b, "OS/2")
	post, _ := tableAt(x.b, "post")
	fs := []int{0, 4, 8, 0x100, 12, 0x104}[r.Intn(6)]
	if licence {
		fs = []int{2, 0x200, 0x202, 0x204, 0x208}[r.Intn(5)]
		x.forbidden = true
	}
	binary.BigEndian.PutUint16(x.b[os2+8:], uint16(fs))
	sel := []int{0, 1, 32, 33, 64}[r.Intn(5)]
	binary.BigEndian.PutUint16(x.b[os2+62:], uint16(sel))
	binary.BigEndian.PutUint32(x.b[post+12:], uint32([]int{0, 0, 1, 256, 65536}[r.Intn(5)]))
	if r.Intn(3) == 0 {
		binary.BigEndian.PutUint16(x.b[post+4:], uint16(r.Intn(60)-30))
	}
	if nm := psName(x.b); seed != 0 {
		// the last byte of a character, in either coding of the name
		wide := len(nm) > 1 && nm[0] == 0
		for i := range nm {
			if (!wide || i%2 == 1) && i > 1 && r.Intn(5) == 0 {
				nm[i] = "0019-_ ()[]{}<>/%\"\\Zz."[r.Intn(22)]
			}
		}
	}
	x.f, _ = fontx.Parse(x.b, false)
	return x
}

// defFont is a definition file, read back.
type defFont struct {
	pkg, typ string
	str      map[string]string
	num      map[string]int
	cw       map[int]int
	ncw      int
	desc     map[string]string
	ndesc    int
	ret      map[string]string // what a method returns
	size     int
	family   string
	descLen  int
	cwMade   bool
}

// stubs: what a definition file uses of the package it imports.
const stubSrc = `package gopdf
type FontDescItem struct { Key, Val string }
type FontCw map[byte]int
func Chr(n int) byte { return 0 }
func ToByte(chr string) byte { return 0 }
type IFont interface {
	Init(); GetType() string; GetName() string; GetDesc() []FontDescItem; GetUp() int; GetUt() int; GetCw() FontCw
	GetEnc() string; GetDiff() string; GetOriginalsize() int; SetFamily(family string); GetFamily() string
}
`

type stubImp struct{}

var stubPkg *types.Package

func (stubImp) Import(path string) (*types.Package, error) {
	if !strings.Contains(path, "pdf") {
		return nil, fmt.Errorf("unknown package %s", path)
	}
	if stubPkg == nil {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, "stub.go", stubSrc, 0)
		if err != nil {
			return nil, err
		}
		if stubPkg, err = (&types.Config{}).Check(path, fs, []*ast.File{f}, nil); err != nil {
			return nil, err
		}
	}
	return stubPkg, nil
}

// compiles tells whether the type of a definition file is a font for the generator.
func compiles(fs *token.FileSet, f *ast.File, typ string) error {
	pkg, err := (&types.Config{Importer: stubImp{}}).Check("fonts", fs, []*ast.File{f}, nil)
	if err != nil {
		return err
	}
	o := pkg.Scope().Lookup(typ)
	if o == nil {
		return fmt.Errorf("no type %s", typ)
	}
	if stubPkg == nil {
		return fmt.Errorf("the package of the fonts is not imported")
	}
	itf := stubPkg.Scope().Lookup("IFont").Type().Underlying().(*types.Interface)
	if m, _ := types.MissingMethod(types.NewPointer(o.Type()), itf, true); m != nil {
		return fmt.Errorf("it is no font: method %s", m.Name())
	}
	return nil
}

func (d *defFont) Init()           {}
func (d *defFont) GetType() string { return d.str["fonttype"] }
func (d *defFont) GetName() string { return d.str["name"] }
func (d *defFont) GetDesc() []gopdf.FontDescItem {
	var o []gopdf.FontDescItem
	for k, v := range d.desc {
		o = append(o, gopdf.FontDescItem{Key: k, Val: v})
	}
	return o
}
func (d *defFont) GetUp() int { return d.num["up"] }
func (d *defFont) GetUt() int { return d.num["ut"] }
func (d *defFont) GetCw() gopdf.FontCw {
	c := gopdf.FontCw{}
	for k, v := range d.cw {
		c[byte(k)] = v
	}
	return c
}
func (d *defFont) GetEnc() string       { return d.str["enc"] }
func (d *defFont) GetDiff() string      { return d.str["diff"] }
func (d *defFont) GetOriginalsize() int { return d.size }
func (d *defFont) SetFamily(f string)   { d.family = f }
func (d *defFont) GetFamily() string    { return d.family }

func intOf(e ast.Expr) (int, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.INT {
			v, err := strconv.ParseInt(x.Value, 0, 64)
			return int(v), err == nil
		}
		if x.Kind == token.CHAR {
			s, err := strconv.Unquote(x.Value)
			if err == nil && len(s) > 0 {
				return int([]rune(s)[0]), true
			}
		}
	case *ast.UnaryExpr:
		v, ok := intOf(x.X)
		if x.Op == token.SUB {
			return -v, ok
		}
		return v, ok
	case *ast.ParenExpr:
		return intOf(x.X)
	case *ast.CallExpr: // gopdf.Chr(n), gopdf.ToByte("c"), byte(n)
		if len(x.Args) != 1 {
			return 0, false
		}
		fn := ""
		switch f := x.Fun.(type) {
		case *ast.SelectorExpr:
			fn = f.Sel.Name
		case *ast.Ident:
			fn = f.Name
		}
		switch fn {
		case "Chr", "byte":
			v, ok := intOf(x.Args[0])
			return v & 255, ok
		case "ToByte":
			s, ok := strOf(x.Args[0])
			if ok && len(s) > 0 {
				return int(s[0]), true
			}
		}
	}
	return 0, false
}

func strOf(e ast.Expr) (string, bool) {
	if x, ok := e.(*ast.BasicLit); ok && x.Kind == token.STRING {
		s, err := strconv.Unquote(x.Value)
		return s, err == nil
	}
	return "", false
}

func readDef(b []byte) (*defFont, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", b, 0)
	if err != nil {
		return nil, err
	}
	d := &defFont{pkg: f.Name.Name, str: map[string]string{}, num: map[string]int{}, cw: map[int]int{}, desc: map[string]string{}, ret: map[string]string{}}
	for _, dc := range f.Decls {
		switch x := dc.(type) {
		case *ast.GenDecl:
			for _, sp := range x.Specs {
				if t, ok := sp.(*ast.TypeSpec); ok {
					d.typ = t.Name.Name
				}
			}
		case *ast.FuncDecl:
			if x.Recv == nil || len(x.Recv.List) != 1 {
				continue
			}
			st, ok := x.Recv.List[0].Type.(*ast.StarExpr)
			if !ok {
				continue
			}
			if id, ok := st.X.(*ast.Ident); !ok || id.Name != d.typ {
				return nil, fmt.Errorf("method %s of another type", x.Name.Name)
			}
			if x.Name.Name == "Init" {
				for _, s := range x.Body.List {
					d.assign(s)
				}
				continue
			}
			if x.Name.Name == "SetFamily" && len(x.Body.List) == 1 && len(x.Type.Params.List) == 1 && len(x.Type.Params.List[0].Names) == 1 {
				if a, ok := x.Body.List[0].(*ast.AssignStmt); ok && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
					l, ok1 := a.Lhs[0].(*ast.SelectorExpr)
					r, ok2 := a.Rhs[0].(*ast.Ident)
					if ok1 && ok2 && r.Name == x.Type.Params.List[0].Names[0].Name {
						d.ret["SetFamily"] = l.Sel.Name
					}
				}
			}
			for _, s := range x.Body.List {
				if rt, ok := s.(*ast.ReturnStmt); ok && len(rt.Results) == 1 {
					if se, ok := rt.Results[0].(*ast.SelectorExpr); ok {
						d.ret[x.Name.Name] = se.Sel.Name
					} else if v, ok := intOf(rt.Results[0]); ok && x.Name.Name == "GetOriginalsize" {
						d.size = v
					}
				}
			}
		}
	}
	return d, compiles(fs, f, d.typ)
}

func (d *defFont) assign(s ast.Stmt) {
	a, ok := s.(*ast.AssignStmt)
	if !ok || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
		return
	}
	switch l := a.Lhs[0].(type) {
	case *ast.SelectorExpr:
		if c, ok := a.Rhs[0].(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "make" {
				if l.Sel.Name == "cw" {
					d.cw, d.ncw, d.cwMade = map[int]int{}, 0, true
				}
				if n := 0; l.Sel.Name == "desc" && len(c.Args) > 1 {
					n, _ = intOf(c.Args[1])
					d.desc, d.ndesc, d.descLen = map[string]string{}, 0, n
				}
				return
			}
		}
		if v, ok := intOf(a.Rhs[0]); ok {
			d.num[l.Sel.Name] = v
		} else if v, ok := strOf(a.Rhs[0]); ok {
			d.str[l.Sel.Name] = v
		}
	case *ast.IndexExpr:
		se, ok := l.X.(*ast.SelectorExpr)
		if !ok {
			return
		}
		i, ok := intOf(l.Index)
		if !ok {
			return
		}
		if v, ok := intOf(a.Rhs[0]); ok && se.Sel.Name == "cw" {
			d.cw[i] = v
			d.ncw++
		}
		if c, ok := a.Rhs[0].(*ast.CompositeLit); ok && se.Sel.Name == "desc" {
			var k, v string
			for n, e := range c.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					if n == 0 {
						k, _ = strOf(e)
					} else {
						v, _ = strOf(e)
					}
					continue
				}
				if id, ok := kv.Key.(*ast.Ident); ok && id.Name == "Key" {
					k, _ = strOf(kv.Value)
				} else {
					v, _ = strOf(kv.Value)
				}
			}
			if i < d.descLen {
				d.desc[k] = v
				d.ndesc++
			}
		}
	}
}

// differences reads the array of an encoding.
func differences(s string) (map[int]string, error) {
	m := map[int]string{}
	c := -1
	for _, w := range strings.Fields(s) {
		if strings.HasPrefix(w, "/") {
			if c < 0 {
				return nil, fmt.Errorf("name %s has no code", w)
			}
			m[c] = w[1:]
			c++
			continue
		}
		n, err := strconv.Atoi(w)
		if err != nil {
			return nil, err
		}
		c = n
	}
	return m, nil
}

func (s *session) mkfont(op Op) {
	st := s.t.w.st
	t := s.t
	x := mkFontFile(op.Font, uint64(op.Pos), op.Bad == "licence")
	if x.f == nil {
		s.res = append(s.res, "ok")
		return
	}
	fb := x.b
	if len(op.Damage) > 0 {
		fb = damage(fb, op.Damage)
	}
	encB, enc := mapFile(uint64(op.Size)*2654435761+1, x.f)
	refB, ref := mapFile(uint64(op.Align)*2654435761+3, x.f)
	if op.On {
		// the reference is close to the encoding
		*ref = *enc
		refB = append([]byte(nil), encB...)
		r := rand.New(rand.NewSource(int64(op.Align)))
		for k := r.Intn(4); k > 0; k-- {
			c := r.Intn(256)
			ref[c].uv, ref[c].name = 65, "Aring"
			refB = append(refB, fmt.Sprintf("\n!%02X U+0041 Aring\n", c)...)
		}
	}
	if op.Style == "cp1252" {
		encB, enc = refB, ref
	}
	base := filepath.Dir(t.path("x"))
	mp, outd := base+"/map", base+"/out"
	os.MkdirAll(mp, 0755)
	os.MkdirAll(outd, 0755)
	font := base + "/" + op.Name
	os.WriteFile(font, fb, 0644)
	encW, refW := encB, refB
	switch op.Bad {
	case "badmap":
		encW = badMap(encB, uint64(op.Kind))
	case "badref":
		refW = badMap(refB, uint64(op.Kind))
	}
	os.Remove(mp + "/cp1252.map")
	os.Remove(mp + "/" + op.Style + ".map")
	if op.Bad != "noref" {
		os.WriteFile(mp+"/cp1252.map", refW, 0644)
	}
	if op.Style != "cp1252" && op.Bad != "nomap" {
		os.WriteFile(mp+"/"+op.Style+".map", encW, 0644)
	}
	stem := strings.ReplaceAll(strings.Split(op.Name, ".")[0], " ", "_")
	zf, df := outd+"/"+stem+".z", outd+"/"+stem+".font.go"
	switch op.Via {
	case "longer":
		os.WriteFile(zf, bytes.Repeat([]byte("old "), 60000), 0644)
		os.WriteFile(df, bytes.Repeat([]byte("old "), 60000), 0644)
	case "none":
		os.Remove(zf)
		os.Remove(df)
	case "dir":
		os.Remove(df)
		os.MkdirAll(df+"/x", 0755)
	}
	want := op.Bad != ""
	target := outd
	switch op.Bad {
	case "missing":
		font = base + "/nosuch.ttf"
	case "outdir":
		target = base + "/nosuch"
	}
	if op.Via == "dir" {
		want = true
	}
	if s.fm == nil || op.Via == "new" {
		s.fm = core.NewFontMaker()
		s.nres = 0
	}
	var err error
	crashed, hit := t.disk(op.Faults, func() { err = s.fm.MakeFont(font, mp, op.Style, target) })
	if op.Via == "dir" {
		os.RemoveAll(df)
	}
	res := s.fm.GetResults()
	tail := res[min(s.nres, len(res)):]
	s.nres = len(res)
	if crashed {
		s.res = append(s.res, "crash")
		s.fm = nil // another process
		return
	}
	if len(op.Damage) > 0 {
		if err != nil {
			s.res = append(s.res, "error")
		} else {
			s.res = append(s.res, "ok")
		}
		return
	}
	if op.Bad == "" && len(op.Faults) == 0 && err == nil {
		st.Checked["fonts made"]++
	}
	why := "the input cannot be used"
	if hit {
		why = "the disk failed"
	}
	ok := s.outcome(op, err, want || hit, why)
	if got, _ := os.ReadFile(font); op.Bad != "missing" && !bytes.Equal(got, fb) {
		s.bad("made", "the font file was changed")
	}
	if !ok || want || hit {
		return
	}
	zb, e1 := os.ReadFile(zf)
	db, e2 := os.ReadFile(df)
	if e1 != nil || e2 != nil {
		s.bad("made", "no error, but a file is missing: %v %v", e1, e2)
		return
	}
	s.outs = append(s.outs, out{op: s.opi, b: zb}, out{op: s.opi, b: db})
	zr, e := zlib.NewReader(bytes.NewReader(zb))
	if e != nil {
		s.bad("made", "the compressed font cannot be read: %v", e)
	} else if raw, e := io.ReadAll(zr); e != nil {
		s.bad("made", "the compressed font cannot be read: %v", e)
	} else if !bytes.Equal(raw, fb) {
		s.bad("made", "the compressed font is not the font: %s", diff(raw, fb))
	}
	d, e := readDef(db)
	if e != nil {
		s.bad("made", "the definition is not right Go: %v", e)
		return
	}
	s.checkDef(op, x, d, enc, ref, stem)
	for _, n := range []string{stem + ".z", stem + ".font.go"} {
		if !strings.Contains(strings.Join(tail, "\n"), n) {
			s.bad("made", "the results do not name %s", n)
		}
	}
	for c := range enc {
		if n := enc[c].name; n != ".notdef" && (enc[c].uv > 0xFFFE || x.f.Gid(rune(enc[c].uv)) == 0) {
			found := false
			for _, l := range tail {
				found = found || strings.Contains(l, n) && strings.Contains(l, "missing")
			}
			if !found {
				s.bad("made", "character %s is not in the font, the results do not say so", n)
			}
		}
	}
}

func (s *session) checkDef(op Op, x *mkFontX, d *defFont, enc, ref *charMap, stem string) {
	f := x.f
	near := func(got int, v int) bool {
		return math.Abs(float64(got)-float64(v)*1000/float64(f.Upem)) <= 0.5+1e-9
	}
	hm := func(g int) int {
		if g >= f.NHM {
			g = f.NHM - 1
		}
		return int(binary.BigEndian.Uint16(f.T["hmtx"][4*g:]))
	}
	if want := strings.ToUpper(stem[:1]) + stem[1:]; d.typ != want {
		s.bad("made", "the type is %s, not %s", d.typ, want)
	}
	if d.ncw != 256 || len(d.cw) != 256 {
		s.bad("made", "%d widths for %d codes", d.ncw, len(d.cw))
		return
	}
	for c := 0; c < 256; c++ {
		g := 0
		if enc[c].name != ".notdef" && enc[c].uv >= 0 && enc[c].uv < 0xFFFF {
			if g = f.Gid(rune(enc[c].uv)); g >= f.NGlyphs {
				g = 0
			}
		}
		if !near(d.cw[c], hm(g)) {
			s.bad("made", "code %d (%s, U+%04X) has width %d, glyph %d has %d of %d", c, enc[c].name, enc[c].uv, d.cw[c], g, hm(g), f.Upem)
			break
		}
	}
	if !near(d.num["up"], f.UPos) || !near(d.num["ut"], f.UThick) {
		s.bad("made", "underline %d %d, the font has %d %d of %d", d.num["up"], d.num["ut"], f.UPos, f.UThick, f.Upem)
	}
	if d.str["fonttype"] != "TrueType" || d.str["enc"] != op.Style {
		s.bad("made", "type %q, encoding %q", d.str["fonttype"], d.str["enc"])
	}
	name := ""
	for _, c := range psName(x.b) {
		if c != 0 && !strings.ContainsRune(" []{}()<>/%", rune(c)) {
			name += string([]byte{c})
		}
	}
	if d.str["name"] != name {
		s.bad("made", "the name is %q, the font's %q", d.str["name"], name)
	}
	dm, err := differences(d.str["diff"])
	if err != nil {
		s.bad("made", "differences %q: %v", d.str["diff"], err)
	} else {
		for c := 0; c < 256; c++ {
			got, ok := dm[c]
			if !ok {
				got = ref[c].name
			}
			if got != enc[c].name {
				s.bad("made", "code %d is %s by the differences, %s in the encoding", c, got, enc[c].name)
				break
			}
		}
	}
	if d.size != len(x.b) {
		s.bad("made", "original size %d, the font has %d bytes", d.size, len(x.b))
	}
	if d.ndesc != len(d.desc) || d.ndesc != d.descLen {
		s.bad("made", "the descriptor of %d entries has %d, %d different", d.descLen, d.ndesc, len(d.desc))
	}
	if !d.cwMade {
		s.bad("made", "the widths are written into a nil map")
	}
	entry := func(k string, v int, plain bool) {
		g, err := strconv.Atoi(strings.TrimSpace(d.desc[k]))
		if err != nil || plain && g != v || !plain && !near(g, v) {
			s.bad("made", "descriptor: %s is %q, not %d", k, d.desc[k], v)
		}
	}
	o2 := f.T["OS/2"]
	capH := f.Ascs[0]
	if binary.BigEndian.Uint16(o2) >= 2 {
		capH = int(int16(binary.BigEndian.Uint16(o2[88:])))
	}
	entry("Ascent", f.Asc, false)
	entry("Descent", f.Desc, false)
	entry("CapHeight", capH, false)
	fl := 32
	if binary.BigEndian.Uint32(f.T["post"][12:]) != 0 {
		fl |= 1
	}
	if f.Italic != 0 {
		fl |= 64
	}
	entry("Flags", fl, true)
	entry("ItalicAngle", f.Italic, true)
	stem_ := 70
	if binary.BigEndian.Uint16(o2[62:])&32 != 0 {
		stem_ = 120
	}
	entry("StemV", stem_, true)
	entry("MissingWidth", hm(0), false)
	bb := strings.Fields(strings.Trim(d.desc["FontBBox"], "[] "))
	okBB := len(bb) == 4
	for i := 0; okBB && i < 4; i++ {
		v, err := strconv.Atoi(bb[i])
		okBB = err == nil && near(v, f.BBox[i])
	}
	if !okBB {
		s.bad("made", "descriptor: FontBBox is %q, not %v of %d", d.desc["FontBBox"], f.BBox, f.Upem)
	}
	for m, fd := range map[string]string{"GetType": "fonttype", "GetName": "name", "GetDesc": "desc", "GetUp": "up", "GetUt": "ut", "GetCw": "cw", "GetEnc": "enc", "GetDiff": "diff", "GetFamily": "family", "SetFamily": "family"} {
		if d.ret[m] != fd {
			s.bad("made", "%s goes by field %q", m, d.ret[m])
		}
	}
	// and used, it measures as the font does
	txt := []byte(op.Text)
	w := 0
	for _, c := range txt {
		w += d.cw[int(c)]
	}
	if got, want := gopdf.StrHelperGetStringWidth(op.Text, 12, d), float64(w)*12/1000; math.Abs(got-want) > 1e-6 {
		s.bad("made", "%q measures %v, its widths sum up to %v", op.Text, got, want)
	}
	ws := strings.Fields(gopdf.FontConvertHelper_Cw2Str(d.GetCw()))
	okW := len(ws) == 224
	for i := 0; okW && i < 224; i++ {
		okW = ws[i] == strconv.Itoa(d.cw[32+i])
	}
	if !okW {
		s.bad("made", "the array of widths from code 32 on is not the widths")
	}
}

// makeFonts generates calls of the font maker.
func (b *bld) makeFonts(faults bool) {
	r := b.r
	for k := 1 + r.Intn(3); k > 0; k-- {
		o := Op{K: "mkfont", Font: b.fontSpec(), Name: []string{"Loma.ttf", "my font.ttf", "A.b.ttf", "x.TTF"}[r.Intn(4)],
			Style: []string{"cp874", "cp1250", "iso-8859-11", "cp1252", "cp874"}[r.Intn(5)], Size: 1 + r.Intn(1<<20), Align: 1 + r.Intn(1<<20), On: b.p(3),
			Pos: r.Intn(1 << 20), Via: []string{"", "longer", "none", "new"}[r.Intn(4)], Text: []string{"", "Hello, \\World\"", "\x01é€ÿ", "ABC xyz"}[r.Intn(4)]}
		switch q := r.Intn(10); {
		case q < 2:
			o.Bad = []string{"licence", "badmap", "badref", "nomap", "noref", "missing", "outdir", "ext"}[r.Intn(8)]
			o.Kind = r.Intn(1 << 16)
			if o.Bad == "ext" {
				o.Name = []string{"Loma.otf", "Loma", "Loma.ttf.gz", "ttf", ".ttf"}[r.Intn(5)]
			}
			if (o.Bad == "badmap" || o.Bad == "nomap") && o.Style == "cp1252" {
				o.Style = "cp874"
			}
			if b.p(9) {
				o.Bad, o.Via = "", "dir"
			}
		case q < 3:
			o.Damage = fontDamage(r)
		case q < 7 && faults:
			good := o
			for n := 1 + r.Intn(2); n > 0; n-- {
				o.Faults = append(o.Faults, Fault{At: r.Intn(26), Kind: []string{"eio", "eio", "enospc", "eacces", "short", "short", "eintr", "crash"}[r.Intn(8)], N: r.Intn(1 << 17)})
			}
			b.add(o)
			good.Via = []string{"", "", "new"}[r.Intn(3)]
			o = good
		}
		b.add(o)
	}
}

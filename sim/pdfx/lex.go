// Package pdfx is the simulator's own PDF reader.  It shares no code with the
// system under test: it is the oracle that decides what a saved file means.
package pdfx

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Obj is Null, Bool, Num, Name, Str, Arr, Dict, Ref, *Stream or Op.
type Obj interface{}

type (
	Null   struct{}
	Bool   bool
	Num    struct{ V float64 }
	Name   string
	Str    string
	Arr    []Obj
	Dict   map[Name]Obj
	Ref    struct{ N, G int }
	Stream struct {
		D   Dict
		Raw []byte
	}
	// Kw is a bare keyword (operators of content streams).
	Kw string
)

type Lexer struct {
	B []byte
	P int
	// Dup collects keys that occur twice in one dictionary.
	Dup []string
}

func IsSpace(c byte) bool {
	return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32
}
func isDelim(c byte) bool {
	switch c {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return false
}

func (l *Lexer) Skip() {
	for l.P < len(l.B) {
		c := l.B[l.P]
		if IsSpace(c) {
			l.P++
		} else if c == '%' {
			for l.P < len(l.B) && l.B[l.P] != '\n' && l.B[l.P] != '\r' {
				l.P++
			}
		} else {
			return
		}
	}
}

func (l *Lexer) err(f string, a ...interface{}) error {
	return fmt.Errorf("at byte %d: %s", l.P, fmt.Sprintf(f, a...))
}

func (l *Lexer) word() string {
	s := l.P
	for l.P < len(l.B) && !IsSpace(l.B[l.P]) && !isDelim(l.B[l.P]) {
		l.P++
	}
	return string(l.B[s:l.P])
}

func parseNum(w string) (float64, bool) {
	if w == "" {
		return 0, false
	}
	dig := false
	for i := 0; i < len(w); i++ {
		c := w[i]
		if c >= '0' && c <= '9' {
			dig = true
		} else if c == '.' || ((c == '-' || c == '+') && i == 0) {
		} else {
			return 0, false
		}
	}
	if !dig {
		return 0, false
	}
	v, err := strconv.ParseFloat(w, 64)
	return v, err == nil
}

// Object reads one object. refs: whether "n g R" is a reference.
func (l *Lexer) Object(refs bool) (Obj, error) { return l.object(refs, 0) }

func (l *Lexer) object(refs bool, depth int) (Obj, error) {
	if depth > 100 {
		return nil, l.err("nested too deep")
	}
	l.Skip()
	if l.P >= len(l.B) {
		return nil, l.err("end of data")
	}
	c := l.B[l.P]
	switch c {
	case '/':
		l.P++
		w := l.word()
		if strings.IndexByte(w, '#') >= 0 {
			var o []byte
			for i := 0; i < len(w); i++ {
				if w[i] == '#' && i+2 < len(w)+0 && i+2 <= len(w)-1 {
					if v, err := strconv.ParseUint(w[i+1:i+3], 16, 8); err == nil {
						o = append(o, byte(v))
						i += 2
						continue
					}
				}
				o = append(o, w[i])
			}
			w = string(o)
		}
		return Name(w), nil
	case '(':
		return l.literal()
	case '[':
		l.P++
		a := Arr{}
		for {
			l.Skip()
			if l.P >= len(l.B) {
				return nil, l.err("array not closed")
			}
			if l.B[l.P] == ']' {
				l.P++
				return a, nil
			}
			o, err := l.object(refs, depth+1)
			if err != nil {
				return nil, err
			}
			if k, ok := o.(Kw); ok {
				return nil, l.err("keyword %q in array", string(k))
			}
			a = append(a, o)
		}
	case '<':
		if l.P+1 < len(l.B) && l.B[l.P+1] == '<' {
			l.P += 2
			d := Dict{}
			for {
				l.Skip()
				if l.P+1 < len(l.B) && l.B[l.P] == '>' && l.B[l.P+1] == '>' {
					l.P += 2
					return d, nil
				}
				k, err := l.object(refs, depth+1)
				if err != nil {
					return nil, err
				}
				kn, ok := k.(Name)
				if !ok {
					return nil, l.err("dictionary key is not a name: %s", Show(k))
				}
				v, err := l.object(refs, depth+1)
				if err != nil {
					return nil, err
				}
				if kw, ok := v.(Kw); ok {
					return nil, l.err("keyword %q as value of /%s", string(kw), string(kn))
				}
				if _, dup := d[kn]; dup {
					l.Dup = append(l.Dup, string(kn))
				}
				d[kn] = v
			}
		}
		return l.hex()
	case ')', '>', ']', '{', '}':
		return nil, l.err("unexpected %q", string(c))
	}
	start := l.P
	w := l.word()
	if v, ok := parseNum(w); ok {
		if refs && v >= 0 && strings.IndexAny(w, ".+-") < 0 {
			save := l.P
			l.Skip()
			g := l.word()
			if gv, err := strconv.Atoi(g); err == nil && gv >= 0 {
				l.Skip()
				if l.word() == "R" {
					return Ref{int(v), gv}, nil
				}
			}
			l.P = save
		}
		return Num{v}, nil
	}
	switch w {
	case "true":
		return Bool(true), nil
	case "false":
		return Bool(false), nil
	case "null":
		return Null{}, nil
	case "":
		l.P = start
		return nil, l.err("unexpected byte %q", string(c))
	}
	return Kw(w), nil
}

func (l *Lexer) literal() (Obj, error) {
	var o []byte
	depth := 0
	for l.P < len(l.B) {
		c := l.B[l.P]
		l.P++
		switch c {
		case '(':
			depth++
			if depth > 1 {
				o = append(o, c)
			}
		case ')':
			depth--
			if depth == 0 {
				return Str(o), nil
			}
			o = append(o, c)
		case '\r':
			if l.P < len(l.B) && l.B[l.P] == '\n' {
				l.P++
			}
			o = append(o, '\n')
		case '\\':
			if l.P >= len(l.B) {
				return nil, l.err("string not closed")
			}
			c = l.B[l.P]
			l.P++
			switch c {
			case 'n':
				o = append(o, '\n')
			case 'r':
				o = append(o, '\r')
			case 't':
				o = append(o, '\t')
			case 'b':
				o = append(o, '\b')
			case 'f':
				o = append(o, '\f')
			case '\n':
			case '\r':
				if l.P < len(l.B) && l.B[l.P] == '\n' {
					l.P++
				}
			default:
				if c >= '0' && c <= '7' {
					v := int(c - '0')
					for k := 0; k < 2 && l.P < len(l.B) && l.B[l.P] >= '0' && l.B[l.P] <= '7'; k++ {
						v = v*8 + int(l.B[l.P]-'0')
						l.P++
					}
					o = append(o, byte(v))
				} else {
					o = append(o, c)
				}
			}
		default:
			o = append(o, c)
		}
	}
	return nil, l.err("string not closed")
}

func (l *Lexer) hex() (Obj, error) {
	l.P++
	var d []byte
	for l.P < len(l.B) {
		c := l.B[l.P]
		l.P++
		if c == '>' {
			if len(d)%2 == 1 {
				d = append(d, '0')
			}
			o := make([]byte, len(d)/2)
			for i := range o {
				v, _ := strconv.ParseUint(string(d[2*i:2*i+2]), 16, 8)
				o[i] = byte(v)
			}
			return Str(o), nil
		}
		if IsSpace(c) {
			continue
		}
		if !bytes.ContainsRune([]byte("0123456789abcdefABCDEF"), rune(c)) {
			return nil, l.err("bad digit %q in hex string", string(c))
		}
		d = append(d, c)
	}
	return nil, l.err("hex string not closed")
}

// Show prints an object for messages and comparison (keys sorted).
func Show(o Obj) string {
	var b strings.Builder
	show(&b, o)
	return b.String()
}

func show(b *strings.Builder, o Obj) {
	switch v := o.(type) {
	case nil:
		b.WriteString("<nothing>")
	case Null:
		b.WriteString("null")
	case Bool:
		fmt.Fprint(b, bool(v))
	case Num:
		b.WriteString(strconv.FormatFloat(v.V, 'g', -1, 64))
	case Name:
		fmt.Fprintf(b, "/%q", string(v))
	case Str:
		fmt.Fprintf(b, "(%q)", string(v))
	case Arr:
		b.WriteString("[")
		for i, e := range v {
			if i > 0 {
				b.WriteString(" ")
			}
			show(b, e)
		}
		b.WriteString("]")
	case Dict:
		b.WriteString("<<")
		for _, k := range SortedKeys(v) {
			fmt.Fprintf(b, "/%q ", string(k))
			show(b, v[k])
			b.WriteString(" ")
		}
		b.WriteString(">>")
	case Ref:
		fmt.Fprintf(b, "%d %d R", v.N, v.G)
	case *Stream:
		show(b, v.D)
		fmt.Fprintf(b, "stream(%d bytes)", len(v.Raw))
	case Kw:
		b.WriteString(string(v))
	default:
		fmt.Fprintf(b, "?%T", o)
	}
}

func SortedKeys(d Dict) []Name {
	ks := make([]Name, 0, len(d))
	for k := range d {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// ContentOp is one operator of a content stream with its operands.
type ContentOp struct {
	Op   string
	Args []Obj
}

// ContentOps splits a content stream into operators.
func ContentOps(b []byte) ([]ContentOp, error) {
	l := &Lexer{B: b}
	var ops []ContentOp
	var args []Obj
	for {
		l.Skip()
		if l.P >= len(l.B) {
			break
		}
		o, err := l.Object(false)
		if err != nil {
			return ops, err
		}
		if k, ok := o.(Kw); ok {
			if k == "BI" {
				return ops, fmt.Errorf("inline image")
			}
			ops = append(ops, ContentOp{string(k), args})
			args = nil
			continue
		}
		args = append(args, o)
	}
	if len(args) > 0 {
		return ops, fmt.Errorf("operands without operator at the end of the content")
	}
	return ops, nil
}

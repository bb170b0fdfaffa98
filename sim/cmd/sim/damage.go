package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"hash/crc32"
	"io"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

// damage applies storage damage to a copy of an input.
func damage(b []byte, ds []Dmg) []byte {
	b = append([]byte(nil), b...)
	for _, d := range ds {
		if len(b) == 0 {
			break
		}
		at := d.At % len(b)
		switch d.Kind {
		case "cut":
			b = b[:at]
		case "flip":
			b[at] ^= byte(1 << uint(d.N%8))
		case "byte":
			b[at] = byte(d.N)
		case "del":
			e := at + 1 + d.N
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:at:at], b[e:]...)
		case "zero": // a sector that was never written
			for i := at; i < at+d.N && i < len(b); i++ {
				b[i] = 0
			}
		case "dup":
			e := at + 1 + d.N
			if e > len(b) {
				e = len(b)
			}
			seg := append([]byte(nil), b[at:e]...)
			b = append(b[:e:e], append(seg, b[e:]...)...)
		case "swap": // two sectors in each other's place
			n := 64
			o := d.N % len(b)
			if at+n <= len(b) && o+n <= len(b) && (at+n <= o || o+n <= at) {
				t := append([]byte(nil), b[at:at+n]...)
				copy(b[at:], b[o:o+n])
				copy(b[o:], t)
			}
		case "png":
			b = pngDamage(b, d.At, d.N)
		case "ttf":
			ttfDamage(b, d.At, d.N)
		case "num": // the n-th number of the file is another one
			b = nthNumber(b, d.At, d.S)
		case "key": // an entry has another value
			b = keyDamage(b, d.At, d.N)
		case "arr": // an array has other elements
			b = nthArray(b, d.At, d.N)
		case "tab": // other white space
			for i := at; i < at+d.N && i < len(b); i++ {
				if b[i] == ' ' || b[i] == '\n' {
					b[i] = "\t\x00\r\f\n "[(d.At>>7)%6]
				}
			}
		case "words", "turn": // all of an object
			e := len(b)
			if i := bytes.Index(b[at:], []byte("endobj")); i >= 0 {
				e = at + i
			}
			at = bytes.LastIndex(b[:at], []byte("endobj")) + 6
			if at == 5 || at > e {
				at = 0
			}
			seg := string(b[at:e])
			if p := wordPairs[d.N%len(wordPairs)]; d.Kind == "words" {
				seg = strings.ReplaceAll(seg, p[0], p[1])
			} else {
				seg = strings.NewReplacer("<<", ">>", ">>", "<<", "[", "]", "]", "[").Replace(seg)
			}
			b = append(b[:at:at], append([]byte(seg), b[e:]...)...)
		case "word": // the first occurrence after a place is something else
			i := bytes.Index(b[at:], []byte(wordPairs[d.N%len(wordPairs)][0]))
			if i >= 0 {
				p := wordPairs[d.N%len(wordPairs)]
				b = append(b[:at+i:at+i], append([]byte(p[1]), b[at+i+len(p[0]):]...)...)
			}
		}
	}
	return b
}

var wordPairs = [][2]string{
	{"/Kids", "/Kidz"}, {"/Pages", "/Page "}, {"/Type", "/Tipe"}, {"/Contents", "/Contints"}, {"/Parent", "/Kids  "},
	{"endobj", "endobi"}, {"stream", "strean"}, {"endstream", "endstraem"}, {"/Length", "/Lengzz"}, {" R", " Q"}, {"<<", "< "},
	{">>", "> "}, {"[", "("}, {"]", " "}, {"xref", "xrf "}, {"trailer", "tailer "}, {"startxref", "strtxref "}, {"/Root", "/Roof"},
	{"/MediaBox", "/Resources"}, {"/Resources", "/MediaBox"}, {"/Font", "/Fond"}, {" n", " f"}, {" f", " n"}, {"obj", "obi"},
	{"/Filter", "/Filler"}, {"/FlateDecode", "/LZWDecode"}, {"/Count", "/Coumt"}, {"/Page", "/Pa"}, {"%%EOF", "%%E"}, {"(", ")"},
	{" 0 R", ""}, {" 0 R", " R"}, {" 0 R", " 0 0 R"}, {" 0 R", "  0 R"}, {" 0 R", " 65536 R"}, {"<<", ">>"}, {">>", "<<"}, {"<<", ""}, {">>", ""}, {"stream", ""},
	{"/Contents", "/Contents /Contents"}, {"[", "[["}, {"]", "]]"}, {"[", "[]"}, {"[", "<<"}, {"obj", ""}, {"/", ""}, {"/Kids", "/Count"}, {"/Type", "/Contents"}, {"/MediaBox", "/Parent"},
	{"/Font", "/Contents"}, {"/Length", "/Length /Length"}, {"/Pages", "/Pages null"}, {" 0 R", " 0 R 0 R"}, {"/Filter", "/Contents"}, {"/Contents", "/Kids"}, {"trailer", "trailer trailer"}, {"/Root", "/Size"},
}

// nthArray shortens, lengthens or turns round one array that holds no other.
func nthArray(b []byte, n, how int) []byte {
	var spans [][2]int
	for i := 0; i < len(b); i++ {
		if b[i] != '[' {
			continue
		}
		e := bytes.IndexAny(b[i+1:min(len(b), i+600)], "[]")
		if e > 0 && b[i+1+e] == ']' {
			spans = append(spans, [2]int{i + 1, i + 1 + e})
		}
	}
	if len(spans) == 0 {
		return b
	}
	sp := spans[n%len(spans)]
	fs := strings.Fields(string(b[sp[0]:sp[1]]))
	if len(fs) == 0 {
		return b
	}
	k := how / 8 % len(fs)
	switch how % 8 {
	case 0, 1:
		fs = fs[:k]
	case 2:
		fs = append(fs[:k:k], fs[k+1:]...)
	case 3:
		fs = fs[k:]
	case 4:
		fs = append(fs, fs[:k+1]...)
	case 5:
		for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
			fs[i], fs[j] = fs[j], fs[i]
		}
	case 6:
		fs[k] = []string{"null", "/X", "(s)", "<<>>", "-", "1e5", "R", "0"}[how/64%8]
	case 7:
		fs = append(fs[:k+1:k+1], fs[k:]...)
	}
	return append(b[:sp[0]:sp[0]], append([]byte(strings.Join(fs, " ")), b[sp[1]:]...)...)
}

var structKeys = []string{"Kids", "Parent", "Contents", "Length", "Resources", "Font", "XObject", "Pages", "MediaBox", "Type", "Filter",
	"Count", "Root", "Info", "Size", "Prev", "Annots", "CropBox", "DecodeParms", "Length1", "Encrypt", "ID"}

// keyDamage gives one entry of the file's structure another value: something
// of another kind, or a reference to another object.
func keyDamage(b []byte, at, n int) []byte {
	span := func(i int) int { // end of the value that begins at i
		for i < len(b) && strings.IndexByte(" \t\r\n\f\x00", b[i]) >= 0 {
			i++
		}
		if i >= len(b) {
			return i
		}
		for _, p := range [][2]string{{"<<", ">>"}, {"[", "]"}} {
			if bytes.HasPrefix(b[i:], []byte(p[0])) {
				for depth := 0; i < len(b); i++ {
					if bytes.HasPrefix(b[i:], []byte(p[0])) {
						depth++
					} else if bytes.HasPrefix(b[i:], []byte(p[1])) {
						if depth--; depth <= 0 {
							return min(len(b), i+len(p[1]))
						}
					}
				}
				return len(b)
			}
		}
		if m := reRef.FindIndex(b[i:min(len(b), i+30)]); m != nil && m[0] == 0 {
			return i + m[1]
		}
		for i++; i < len(b) && strings.IndexByte(" \t\r\n\f\x00/<>[]()", b[i]) < 0; {
			i++
		}
		return i
	}
	find := func(k string) (at [][2]int) {
		for i := 0; ; {
			j := bytes.Index(b[i:], []byte("/"+k))
			if j < 0 {
				return at
			}
			i += j + 1 + len(k)
			if i < len(b) && strings.IndexByte(" \t\r\n/<[(", b[i]) >= 0 {
				at = append(at, [2]int{i, span(i)})
			}
		}
	}
	pick := func(x *int, n int) int {
		v := *x % n
		*x /= n
		return v
	}
	var spans [][2]int
	for k, t := pick(&n, len(structKeys)), 0; t < len(structKeys) && spans == nil; t++ {
		spans = find(structKeys[(k+t)%len(structKeys)])
	}
	if spans == nil {
		return b
	}
	sp := spans[pick(&at, len(spans))]
	vals := []string{"-5", "-1", "0", "1", "99999999999", "null", "<<>>", "[]", "(s)", "/X", "true", "1.5", ""}
	v := ""
	if how := pick(&n, 4); how == 0 {
		v = vals[pick(&n, len(vals))]
	} else {
		var refs [][]byte
		if how == 1 {
			refs = reRef.FindAll(b, -1)
		} else { // the tree itself
			for _, k := range []string{"Pages", "Parent", "Kids"} {
				for _, s := range find(k) {
					refs = append(refs, reRef.FindAll(b[s[0]:s[1]], -1)...)
				}
			}
		}
		if len(refs) == 0 {
			return b
		}
		v = string(refs[pick(&at, len(refs))])
		switch old := string(bytes.TrimSpace(b[sp[0]:sp[1]])); {
		case strings.HasPrefix(old, "[") && n%2 == 0 && len(old) > 1:
			v = old[:len(old)-1] + " " + v + "]"
		case strings.HasPrefix(old, "["), n%8 == 7:
			v = "[" + v + "]"
		}
	}
	return append(b[:sp[0]:sp[0]], append([]byte(" "+v+" "), b[sp[1]:]...)...)
}

var reRef = regexp.MustCompile(`[0-9]+ +[0-9]+ +R`)

func nthNumber(b []byte, n int, s string) []byte {
	var spans [][2]int
	for i := 0; i < len(b); {
		if b[i] >= '0' && b[i] <= '9' {
			j := i
			for j < len(b) && b[j] >= '0' && b[j] <= '9' {
				j++
			}
			spans = append(spans, [2]int{i, j})
			i = j
		} else {
			i++
		}
	}
	if len(spans) == 0 {
		return b
	}
	sp := spans[n%len(spans)]
	return append(b[:sp[0]:sp[0]], append([]byte(s), b[sp[1]:]...)...)
}

// pngDamage changes the parts of a PNG in ways that a checksum does not show:
// every chunk comes out with a right one.
func pngDamage(b []byte, at, n int) []byte {
	type ck struct {
		t string
		d []byte
	}
	if len(b) < 8 || string(b[1:4]) != "PNG" {
		return b
	}
	var cs []ck
	for p := 8; p+12 <= len(b); {
		l := int(binary.BigEndian.Uint32(b[p:]))
		if l < 0 || p+12+l > len(b) {
			break
		}
		cs = append(cs, ck{string(b[p+4 : p+8]), append([]byte(nil), b[p+8:p+8+l]...)})
		p += 12 + l
	}
	if len(cs) == 0 {
		return b
	}
	k := at % len(cs)
	lie := -1
	switch n % 10 {
	case 0, 1: // a field of the header
		if h := cs[0].d; len(h) == 13 {
			switch at % 6 {
			case 0:
				h[3] = byte(at >> 8)
			case 1:
				h[7] = byte(at >> 8)
			case 2:
				h[8] = []byte{1, 2, 4, 8, 16, 0}[(at>>8)%6]
			case 3:
				h[9] = []byte{0, 2, 3, 4, 6, 5}[(at>>8)%6]
			case 4:
				h[10+(at>>8)%3] = 1
			case 5:
				binary.BigEndian.PutUint32(h[4*((at>>9)%2):], []uint32{0, 1 << 31, 1<<31 - 1, 0xffffffff, 1 << 16}[(at>>10)%5])
			}
		}
	case 2: // a chunk is shorter
		if len(cs[k].d) > 0 {
			cs[k].d = cs[k].d[:(at>>8)%len(cs[k].d)]
		}
	case 3: // a chunk is gone
		cs = append(cs[:k:k], cs[k+1:]...)
	case 4: // a chunk is there twice
		cs = append(cs[:k+1:k+1], append([]ck{cs[k]}, cs[k+1:]...)...)
	case 5: // transparency of the wrong size
		cs = append(cs[:1:1], append([]ck{{"tRNS", make([]byte, (at>>8)%8)}}, cs[1:]...)...)
	case 6: // a palette of the wrong size
		cs = append(cs[:1:1], append([]ck{{"PLTE", bytes.Repeat([]byte{9}, (at>>8)%5)}}, cs[1:]...)...)
	case 7, 8: // fewer pixels than there should be, or more
		var z []byte
		var rest []ck
		for _, c := range cs {
			if c.t == "IDAT" {
				z = append(z, c.d...)
			} else {
				rest = append(rest, c)
			}
		}
		if zr, err := zlib.NewReader(bytes.NewReader(z)); err == nil {
			raw, _ := io.ReadAll(zr)
			if len(raw) > 0 {
				raw = raw[:(at>>8)%len(raw)]
			}
			var o bytes.Buffer
			zw := zlib.NewWriter(&o)
			zw.Write(raw)
			zw.Close()
			if len(rest) > 0 {
				cs = append(rest[:len(rest)-1:len(rest)-1], ck{"IDAT", o.Bytes()}, rest[len(rest)-1])
			}
		}
	case 9: // a length that is not so
		lie = k
	}
	o := append([]byte(nil), b[:8]...)
	for i, c := range cs {
		l := uint32(len(c.d))
		if i == lie {
			l = []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0x8000, l + 1}[(at>>8)%8]
		}
		o = binary.BigEndian.AppendUint32(o, l)
		o = append(o, c.t...)
		o = append(o, c.d...)
		h := crc32.NewIEEE()
		h.Write([]byte(c.t))
		h.Write(c.d)
		o = binary.BigEndian.AppendUint32(o, h.Sum32())
	}
	return o
}

// ttfDamage changes a number in the table directory or at the beginning of a
// table (or anywhere in cmap, loca and the like).
func ttfDamage(b []byte, at, n int) {
	if len(b) < 12 {
		return
	}
	nt := int(binary.BigEndian.Uint16(b[4:]))
	if nt == 0 || 12+16*nt > len(b) {
		return
	}
	v := []uint16{0, 1, 2, 0x7fff, 0x8000, 0xffff, uint16(n), uint16(n >> 4)}[n%8]
	e := 12 + 16*(at%nt)
	at /= nt
	switch at % 8 {
	case 0: // directory
		binary.BigEndian.PutUint16(b[e+8+2*((at>>3)%4):], v)
	case 1:
		binary.BigEndian.PutUint16(b[4:], v)
	default:
		o, l := int(binary.BigEndian.Uint32(b[e+8:])), int(binary.BigEndian.Uint32(b[e+12:]))
		if l > 64 && at%8 < 6 {
			l = 64
		}
		if l >= 2 && o >= 0 && o+l <= len(b) {
			binary.BigEndian.PutUint16(b[o+(at>>3)%(l/2)*2:], v)
		}
	}
}

func fontDamage(r *rand.Rand) []Dmg {
	switch r.Intn(4) {
	case 0:
		return []Dmg{{Kind: "cut", At: r.Intn(1 << 20)}}
	case 1:
		return randomDamage(r, false)
	}
	var ds []Dmg
	for k := 1 + r.Intn(3); k > 0; k-- {
		ds = append(ds, Dmg{Kind: "ttf", At: r.Intn(1 << 20), N: r.Intn(1 << 20)})
	}
	return ds
}

func imageDamage(r *rand.Rand) []Dmg {
	if r.Intn(2) == 0 {
		return []Dmg{{Kind: "png", At: r.Intn(1 << 20), N: r.Intn(10)}}
	}
	return randomDamage(r, false)
}

func randomDamage(r *rand.Rand, text bool) []Dmg {
	var ds []Dmg
	for k := 1 + r.Intn(3); k > 0; k-- {
		kinds := []string{"cut", "flip", "byte", "del", "zero", "dup", "swap"}
		if text {
			kinds = append(kinds, "num", "num", "num", "word", "word", "word", "word", "word", "tab", "words", "words", "turn", "arr", "arr", "key", "key", "key", "key")
		}
		d := Dmg{Kind: kinds[r.Intn(len(kinds))], At: r.Intn(1 << 20)}
		switch d.Kind {
		case "del", "dup":
			d.N = r.Intn(40)
			if r.Intn(4) == 0 {
				d.N = r.Intn(2000)
			}
		case "tab":
			d.N = 1 + r.Intn(2)*r.Intn(600)
		case "zero":
			d.N = []int{1, 16, 512}[r.Intn(3)]
		case "flip", "byte", "swap", "word", "words", "arr", "key":
			d.N = r.Intn(1 << 16)
		case "num":
			d.S = []string{"0", "1", "2", "3", "4", "7", "99999", "4294967296", "-1", "18446744073709551615", "1.5", ""}[r.Intn(12)]
			if r.Intn(2) == 0 {
				d.S = strconv.Itoa(r.Intn(40))
			}
		}
		ds = append(ds, d)
	}
	return ds
}

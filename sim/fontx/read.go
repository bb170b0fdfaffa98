// Package fontx reads and makes TrueType fonts for the simulator. It shares no
// code with the system under test.
package fontx

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

type Font struct {
	B       []byte
	T       map[string][]byte
	Sums    map[string]int // checksums in the directory
	Upem    int
	NHM     int
	NGlyphs int
	Long    bool
	Asc     int // OS/2 typographic
	Desc    int
	BBox    [4]int
	Ascs    [3]int // hhea, OS/2 typographic, OS/2 win
	Descs   [3]int
	Italic  int
	UPos    int
	UThick  int
	Kern    map[[2]int]int
	loca    []int
	f4      []seg4
	f12     []seg12
}

type seg4 struct {
	start, end, delta, ro int
	gids                  []int
}
type seg12 struct{ start, end, gid int }

func u16(b []byte, p int) int { return int(binary.BigEndian.Uint16(b[p:])) }
func i16(b []byte, p int) int { return int(int16(binary.BigEndian.Uint16(b[p:]))) }
func u32(b []byte, p int) int { return int(binary.BigEndian.Uint32(b[p:])) }

// Parse reads a whole font; subset: tables a PDF reader does not need (cmap,
// OS/2, post) may be missing.
func Parse(b []byte, subset bool) (f *Font, err error) {
	defer func() {
		if r := recover(); r != nil {
			f, err = nil, fmt.Errorf("font: %v", r)
		}
	}()
	f = &Font{B: b, T: map[string][]byte{}, Sums: map[string]int{}}
	if len(b) < 12 || u32(b, 0) != 0x10000 {
		return nil, fmt.Errorf("font: not TrueType")
	}
	n := u16(b, 4)
	for i := 0; i < n; i++ {
		e := b[12+16*i : 28+16*i]
		off, ln := u32(e, 8), u32(e, 12)
		if off+ln > len(b) {
			return nil, fmt.Errorf("font: table %q is outside of the file", e[:4])
		}
		f.T[string(e[:4])] = b[off : off+ln]
		f.Sums[string(e[:4])] = u32(e, 4)
	}
	for _, t := range []string{"head", "hhea", "maxp", "hmtx", "loca", "glyf"} {
		if f.T[t] == nil {
			return nil, fmt.Errorf("font: no table %q", t)
		}
	}
	f.Upem = u16(f.T["head"], 18)
	f.Long = u16(f.T["head"], 50) == 1
	f.NHM = u16(f.T["hhea"], 34)
	f.NGlyphs = u16(f.T["maxp"], 4)
	l := f.T["loca"]
	ll := 2 * (f.NGlyphs + 1)
	if f.Long {
		ll *= 2
	}
	if len(l) < ll || subset && len(l) > (ll+3)&^3 {
		return nil, fmt.Errorf("font: loca has %d bytes for %d glyphs", len(l), f.NGlyphs)
	}
	for i := 0; i <= f.NGlyphs; i++ {
		if f.Long {
			f.loca = append(f.loca, u32(l, 4*i))
		} else {
			f.loca = append(f.loca, 2*u16(l, 2*i))
		}
	}
	for i := 0; i < f.NGlyphs; i++ {
		if f.loca[i] > f.loca[i+1] || f.loca[i+1] > len(f.T["glyf"]) {
			return nil, fmt.Errorf("font: loca of glyph %d", i)
		}
	}
	if len(f.T["hmtx"]) < 4*f.NHM {
		return nil, fmt.Errorf("font: hmtx too short")
	}
	if subset {
		return f, f.directory(n)
	}
	f.Asc = i16(f.T["OS/2"], 68)
	f.Desc = i16(f.T["OS/2"], 70)
	for i := range f.BBox {
		f.BBox[i] = i16(f.T["head"], 36+2*i)
	}
	f.Ascs = [3]int{i16(f.T["hhea"], 4), f.Asc, u16(f.T["OS/2"], 74)}
	f.Descs = [3]int{i16(f.T["hhea"], 6), f.Desc, -u16(f.T["OS/2"], 76)}
	if f.Descs[0] >= 0 {
		f.Descs[2] = -f.Descs[2]
	}
	f.Italic = i16(f.T["post"], 4)
	f.UPos = i16(f.T["post"], 8)
	f.UThick = i16(f.T["post"], 10)
	if k := f.T["kern"]; len(k) >= 18 && u16(k, 0) == 0 {
		f.Kern = map[[2]int]int{}
		p := 4
		for t := u16(k, 2); t > 0 && p+14 <= len(k); t-- {
			if u16(k, p+4)>>8 == 0 {
				for i := 0; i < u16(k, p+6); i++ {
					e := p + 14 + 6*i
					f.Kern[[2]int{u16(k, e), u16(k, e+2)}] = i16(k, e+4)
				}
			}
			p += u16(k, p+2)
		}
	}
	c := f.T["cmap"]
	for i := 0; i < u16(c, 2); i++ {
		pid, eid, off := u16(c, 4+8*i), u16(c, 6+8*i), u32(c, 8+8*i)
		if pid == 3 && eid == 1 && u16(c, off) == 4 {
			s := c[off:]
			sc := u16(s, 6) / 2
			for k := 0; k < sc; k++ {
				g := seg4{end: u16(s, 14+2*k), start: u16(s, 16+2*sc+2*k), delta: u16(s, 16+4*sc+2*k), ro: u16(s, 16+6*sc+2*k)}
				if g.ro != 0 {
					for ch := g.start; ch <= g.end && ch < 0xFFFF; ch++ {
						g.gids = append(g.gids, u16(s, 16+6*sc+2*k+g.ro+2*(ch-g.start)))
					}
				}
				f.f4 = append(f.f4, g)
			}
		}
		if pid == 3 && eid == 10 && u16(c, off) == 12 {
			s := c[off:]
			for k := 0; k < u32(s, 12); k++ {
				f.f12 = append(f.f12, seg12{u32(s, 16+12*k), u32(s, 20+12*k), u32(s, 24+12*k)})
			}
		}
	}
	return f, nil
}

// directory checks the table directory of an embedded font.
func (f *Font) directory(n int) error {
	sel := 0
	for 2<<sel <= n {
		sel++
	}
	if u16(f.B, 6) != 16<<sel || u16(f.B, 8) != sel || u16(f.B, 10) != 16*n-16<<sel {
		return fmt.Errorf("font: search values %d %d %d of %d tables", u16(f.B, 6), u16(f.B, 8), u16(f.B, 10), n)
	}
	last := ""
	type span struct{ a, b int }
	var used []span
	for i := 0; i < n; i++ {
		e := f.B[12+16*i:]
		t, off, ln := string(e[:4]), u32(e, 8), u32(e, 12)
		if t <= last {
			return fmt.Errorf("font: table %q after %q", t, last)
		}
		last = t
		if ln == 0 {
			continue
		}
		if off%4 != 0 || off < 12+16*n {
			return fmt.Errorf("font: table %q at %d", t, off)
		}
		for _, u := range used {
			if off < u.b && u.a < off+ln {
				return fmt.Errorf("font: table %q overlaps another", t)
			}
		}
		used = append(used, span{off, off + ln})
	}
	for _, t := range []string{"glyf", "loca"} {
		if Sum(f.T[t]) != f.Sums[t] {
			return fmt.Errorf("font: checksum of %q", t)
		}
	}
	return nil
}

// Same says how the tables of an embedded font that are taken over as they are
// differ from those of the font.
func (f *Font) Same(src *Font) string {
	for _, t := range []string{"cvt ", "fpgm", "prep", "head", "hhea", "maxp"} {
		a, b := f.T[t], src.T[t]
		if t == "head" && len(a) == len(b) && len(a) > 51 {
			a, b = append([]byte(nil), a...), append([]byte(nil), b...)
			for _, i := range []int{8, 9, 10, 11, 50, 51} {
				a[i], b[i] = 0, 0
			}
		}
		if !bytes.Equal(a, b) {
			return fmt.Sprintf("table %q has %d bytes in the font, %d embedded, or others", t, len(b), len(a))
		}
		if len(a) > 0 && t != "head" && f.Sums[t] != src.Sums[t] && f.Sums[t] != Sum(f.T[t]) {
			return fmt.Sprintf("checksum of table %q", t)
		}
	}
	return ""
}

// Gid is the glyph of a character, 0 if the font does not have it.
func (f *Font) Gid(r rune) int {
	c := int(r)
	if c <= 0xFFFF {
		for _, s := range f.f4 {
			if c > s.end {
				continue
			}
			if c < s.start {
				return 0
			}
			if s.ro == 0 {
				return (c + s.delta) & 0xFFFF
			}
			if c-s.start >= len(s.gids) {
				return 0
			}
			g := s.gids[c-s.start]
			if g == 0 {
				return 0
			}
			return (g + s.delta) & 0xFFFF
		}
		return 0
	}
	for _, s := range f.f12 {
		if c >= s.start && c <= s.end {
			return s.gid + c - s.start
		}
	}
	return 0
}

// Runes lists up to max characters of the font.
func (f *Font) Runes(max int) []rune {
	var out []rune
	add := func(c int) {
		r := rune(c)
		if c >= 0x20 && !(c >= 0xD800 && c <= 0xDFFF) && c < 0xFFFE && f.Gid(r) != 0 && f.Gid(r) < f.NGlyphs {
			out = append(out, r)
		}
		if c > 0xFFFF && f.Gid(r) != 0 && f.Gid(r) < f.NGlyphs {
			out = append(out, r)
		}
	}
	for _, s := range f.f4 {
		for c := s.start; c <= s.end && len(out) < max; c++ {
			add(c)
		}
	}
	for _, s := range f.f12 {
		if s.start > 0xFFFF {
			for c := s.start; c <= s.end && len(out) < max+20; c++ {
				add(c)
			}
		}
	}
	return out
}

// Width is the advance of a glyph in 1/1000 em, as PDF writes it.
func (f *Font) Width(g int) int {
	if g >= f.NHM {
		g = f.NHM - 1
	}
	return u16(f.T["hmtx"], 4*g) * 1000 / f.Upem
}

// Glyph is the outline of a glyph.
func (f *Font) Glyph(g int) []byte {
	if g < 0 || g >= f.NGlyphs {
		return nil
	}
	return f.T["glyf"][f.loca[g]:f.loca[g+1]]
}

// Closure is the glyph and all the glyphs it is composed of.
func (f *Font) Closure(g int) []int {
	seen := map[int]bool{}
	var out []int
	var visit func(g int)
	visit = func(g int) {
		if seen[g] || g >= f.NGlyphs {
			return
		}
		seen[g] = true
		out = append(out, g)
		b := f.Glyph(g)
		if len(b) < 10 || i16(b, 0) >= 0 {
			return
		}
		p := 10
		for {
			fl := u16(b, p)
			visit(u16(b, p+2))
			p += 4
			if fl&1 != 0 {
				p += 4
			} else {
				p += 2
			}
			if fl&8 != 0 {
				p += 2
			} else if fl&0x40 != 0 {
				p += 4
			} else if fl&0x80 != 0 {
				p += 8
			}
			if fl&0x20 == 0 {
				return
			}
		}
	}
	visit(g)
	return out
}

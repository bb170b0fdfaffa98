package fontx

import (
	"encoding/binary"
	"math/rand"
	"sort"
)

type w struct{ b []byte }

func (w *w) u16(v int) { w.b = binary.BigEndian.AppendUint16(w.b, uint16(v)) }
func (w *w) u32(v int) { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)) }
func (w *w) raw(b []byte) {
	w.b = append(w.b, b...)
}

// Make makes a font. big: the fonts have more glyphs.
func Make(r *rand.Rand) []byte {
	upem := []int{1000, 2048, 1024, 256, 2000, 500}[r.Intn(6)]
	n := 4 + r.Intn(60)
	if r.Intn(12) == 0 {
		n = 260 + r.Intn(200)
	}
	long := r.Intn(2) == 0
	heavy := 0 // offsets beyond 64 KB
	if r.Intn(16) == 0 {
		heavy = 100 + r.Intn(6000)
		if n > 200 {
			heavy = 100 + r.Intn(1200)
		}
	}
	total := 0
	// outlines
	glyphs := make([][]byte, n)
	for i := range glyphs {
		if i == 0 || r.Intn(10) == 0 {
			if r.Intn(2) == 0 {
				continue // empty outline
			}
		}
		if i > 2 && r.Intn(4) == 0 { // composite of other glyphs (they may be composites)
			var o w
			o.u16(-1)
			for k := 0; k < 4; k++ {
				o.u16(r.Intn(2000) - 1000)
			}
			m := 1 + r.Intn(3)
			for k := 0; k < m; k++ {
				fl := 0
				if k < m-1 {
					fl |= 0x20
				}
				words := r.Intn(2) == 0
				if words {
					fl |= 1
				}
				sc := r.Intn(4)
				switch sc {
				case 1:
					fl |= 8
				case 2:
					fl |= 0x40
				case 3:
					fl |= 0x80
				}
				o.u16(fl)
				o.u16(r.Intn(i))
				if words {
					o.u16(r.Intn(3000))
					o.u16(r.Intn(3000))
				} else {
					o.u16(r.Intn(65536))
				}
				for q := 0; q < []int{0, 1, 2, 4}[sc]; q++ {
					o.u16(r.Intn(65536))
				}
			}
			for len(o.b)%4 != 0 {
				o.b = append(o.b, 0)
			}
			glyphs[i] = o.b
			continue
		}
		var o w
		o.u16(1 + r.Intn(3))
		for k := 0; k < 4+2*r.Intn(12); k++ {
			o.u16(r.Intn(65536))
		}
		if heavy > 0 && r.Intn(8) > 0 {
			m := heavy/2 + r.Intn(heavy)
			if long || total+2*m < 110000 {
				for k := 0; k < m; k++ {
					o.u16(r.Intn(65536))
				}
			}
		}
		for len(o.b)%4 != 0 {
			o.b = append(o.b, 0)
		}
		total += len(o.b)
		glyphs[i] = o.b
	}
	var glyf, loca w
	for i := 0; i < n; i++ {
		if long {
			loca.u32(len(glyf.b))
		} else {
			loca.u16(len(glyf.b) / 2)
		}
		glyf.raw(glyphs[i])
	}
	if long {
		loca.u32(len(glyf.b))
	} else {
		loca.u16(len(glyf.b) / 2)
	}
	if len(glyf.b) == 0 {
		glyf.u32(0)
	}
	// characters: runs of code points, most glyphs used once
	perm := r.Perm(n - 1)
	for i := range perm {
		perm[i]++
	}
	ident := r.Intn(2) == 0
	share := r.Intn(3) == 0
	if ident {
		sort.Ints(perm)
	}
	type run struct {
		c int
		g []int
	}
	var runs, high []run
	starts := []int{0x20, 0x41, 0x61, 0xC0, 0xE01, 0x3040, 0x4E00, 0xF000}
	p := 0
	for _, s := range starts {
		if p >= len(perm) {
			break
		}
		m := 1 + r.Intn(26)
		if s == 0x20 {
			m = 1 + r.Intn(30)
		}
		if m > len(perm)-p {
			m = len(perm) - p
		}
		if r.Intn(5) == 0 && s != 0x41 {
			continue
		}
		g := append([]int(nil), perm[p:p+m]...)
		if share { // several characters look the same
			for i := range g {
				if k := p + i; k > 0 && r.Intn(4) == 0 {
					g[i] = perm[r.Intn(k)]
				}
			}
		}
		runs = append(runs, run{s, g})
		p += m
	}
	for _, s := range []int{0x10000, 0x1F600, 0x20000} {
		if p >= len(perm) || r.Intn(2) == 0 {
			continue
		}
		m := 1 + r.Intn(5)
		if m > len(perm)-p {
			m = len(perm) - p
		}
		g := append([]int(nil), perm[p:p+m]...)
		sort.Ints(g)
		// format 12 groups are consecutive glyphs: one group per glyph run
		c := s
		for i := 0; i < len(g); {
			j := i + 1
			for j < len(g) && g[j] == g[j-1]+1 {
				j++
			}
			high = append(high, run{c, g[i:j]})
			c += j - i
			i = j
		}
		p += m
	}
	// format 4
	type s4 struct{ st, en, delta, ro int }
	var segs []s4
	var arr []int
	var roAt []int
	for _, ru := range runs {
		consec := true
		for i := 1; i < len(ru.g); i++ {
			if ru.g[i] != ru.g[i-1]+1 {
				consec = false
			}
		}
		if consec && r.Intn(3) > 0 {
			segs = append(segs, s4{ru.c, ru.c + len(ru.g) - 1, (ru.g[0] - ru.c) & 0xFFFF, 0})
			roAt = append(roAt, -1)
			continue
		}
		d := 0
		if r.Intn(2) == 0 {
			d = r.Intn(5)
		}
		segs = append(segs, s4{ru.c, ru.c + len(ru.g) - 1, d, 1})
		roAt = append(roAt, len(arr))
		for _, g := range ru.g {
			arr = append(arr, (g-d)&0xFFFF)
		}
	}
	segs = append(segs, s4{0xFFFF, 0xFFFF, 1, 0})
	roAt = append(roAt, -1)
	sc := len(segs)
	for i := range segs {
		if roAt[i] >= 0 {
			segs[i].ro = 2*(sc-i) + 2*roAt[i]
		}
	}
	// an id range value of 0 means "missing": avoid it
	for i := range arr {
		if arr[i] == 0 {
			return Make(r)
		}
	}
	var f4 w
	f4.u16(4)
	f4.u16(16 + 8*sc + 2*len(arr))
	f4.u16(0)
	f4.u16(2 * sc)
	f4.u16(0)
	f4.u16(0)
	f4.u16(0)
	for _, s := range segs {
		f4.u16(s.en)
	}
	f4.u16(0)
	for _, s := range segs {
		f4.u16(s.st)
	}
	for _, s := range segs {
		f4.u16(s.delta)
	}
	for _, s := range segs {
		f4.u16(s.ro)
	}
	for _, g := range arr {
		f4.u16(g)
	}
	var cm w
	cm.u16(0)
	if len(high) > 0 {
		cm.u16(2)
	} else {
		cm.u16(1)
	}
	hdr := 4 + 8*1
	if len(high) > 0 {
		hdr += 8
	}
	cm.u16(3)
	cm.u16(1)
	cm.u32(hdr)
	if len(high) > 0 {
		cm.u16(3)
		cm.u16(10)
		cm.u32(hdr + len(f4.b))
	}
	cm.raw(f4.b)
	if len(high) > 0 {
		cm.u16(12)
		cm.u16(0)
		cm.u32(16 + 12*len(high))
		cm.u32(0)
		cm.u32(len(high))
		for _, h := range high {
			cm.u32(h.c)
			cm.u32(h.c + len(h.g) - 1)
			cm.u32(h.g[0])
		}
	}
	nhm := n
	if r.Intn(3) == 0 {
		nhm = 1 + r.Intn(n)
	}
	var hm w
	for i := 0; i < nhm; i++ {
		hm.u16(r.Intn(upem + upem/2))
		hm.u16(r.Intn(100))
	}
	for i := nhm; i < n; i++ {
		hm.u16(r.Intn(100))
	}
	var head w
	head.u32(0x10000)
	head.u32(0x10000)
	head.u32(r.Intn(1 << 30))
	head.u32(0x5F0F3CF5)
	head.u16(0)
	head.u16(upem)
	head.raw(make([]byte, 16))
	for i := 0; i < 4; i++ {
		head.u16(r.Intn(2*upem) - upem)
	}
	head.u16(0)
	head.u16(8)
	head.u16(2)
	if long {
		head.u16(1)
	} else {
		head.u16(0)
	}
	head.u16(0)
	asc, desc := upem/2+r.Intn(upem/2), -r.Intn(upem/3)
	var hh w
	hh.u32(0x10000)
	hh.u16(asc)
	hh.u16(desc)
	hh.raw(make([]byte, 26))
	hh.u16(nhm)
	var mx w
	mx.u32(0x10000)
	mx.u16(n)
	mx.raw(make([]byte, 26))
	var os2 w
	ver := r.Intn(5)
	os2.u16(ver)
	os2.raw(make([]byte, 62))
	os2.u16(0x20)
	os2.u16(0xFFFF)
	os2.u16(upem/2 + r.Intn(upem/2))
	os2.u16(-r.Intn(upem / 3))
	os2.raw(make([]byte, 10))
	if ver >= 1 {
		os2.raw(make([]byte, 8))
	}
	if ver >= 2 {
		os2.raw(make([]byte, 10))
	}
	put := func(p, v int) {
		if p+2 <= len(os2.b) {
			binary.BigEndian.PutUint16(os2.b[p:], uint16(v))
		}
	}
	put(74, asc+7)
	put(76, 3-desc)
	if ver >= 2 {
		put(86, upem/2-1)
		put(88, upem*2/3)
	}
	var post w
	post.u32(0x30000)
	post.u16(-(upem % 13))
	post.u16(0)
	post.u16(-1 - r.Intn(upem/4))
	post.u16(1 + r.Intn(upem/10))
	post.raw(make([]byte, 20))
	var name w
	ps := []byte("Sim")
	name.u16(0)
	name.u16(1)
	name.u16(18)
	name.u16(3)
	name.u16(1)
	name.u16(0x409)
	name.u16(6)
	name.u16(2 * len(ps))
	name.u16(0)
	for _, c := range ps {
		name.u16(int(c))
	}
	tabs := map[string][]byte{"head": head.b, "hhea": hh.b, "maxp": mx.b, "OS/2": os2.b, "hmtx": hm.b,
		"cmap": cm.b, "loca": loca.b, "glyf": glyf.b, "name": name.b, "post": post.b}
	for _, t := range []string{"cvt ", "fpgm", "prep"} {
		if r.Intn(2) == 0 {
			b := make([]byte, 2*(1+r.Intn(20)))
			r.Read(b)
			tabs[t] = b
		}
	}
	if r.Intn(3) == 0 {
		tabs["kern"] = kernTable(r, n, upem)
	}
	var names []string
	for t := range tabs {
		names = append(names, t)
	}
	sort.Strings(names)
	order := r.Perm(len(names))
	off := map[string]int{}
	pos := 12 + 16*len(names)
	var body w
	for k, i := range order {
		t := names[i]
		off[t] = pos + len(body.b)
		body.raw(tabs[t])
		if k == len(order)-1 && r.Intn(2) == 0 {
			break // last table without padding
		}
		for len(body.b)%4 != 0 {
			body.b = append(body.b, 0)
		}
	}
	var out w
	out.u32(0x10000)
	out.u16(len(names))
	out.u16(0)
	out.u16(0)
	out.u16(0)
	for _, t := range names {
		out.raw([]byte(t))
		out.u32(Sum(tabs[t]))
		out.u32(off[t])
		out.u32(len(tabs[t]))
	}
	out.raw(body.b)
	return out.b
}

// kernTable: one subtable of pairs
func kernTable(r *rand.Rand, n, upem int) []byte {
	seen := map[[2]int]bool{}
	var k w
	pairs := r.Intn(300)
	var body w
	c := 0
	for i := 0; i < pairs; i++ {
		p := [2]int{r.Intn(n), r.Intn(n)}
		if seen[p] {
			continue
		}
		seen[p] = true
		body.u16(p[0])
		body.u16(p[1])
		body.u16(r.Intn(upem) - upem/2)
		c++
	}
	k.u16(0)
	k.u16(1)
	k.u16(0)
	k.u16(14 + len(body.b))
	k.u16(1)
	k.u16(c)
	k.u16(0)
	k.u16(0)
	k.u16(0)
	k.raw(body.b)
	return k.b
}

// Sum is the checksum of a table.
func Sum(b []byte) int {
	var s uint32
	for i := 0; i < len(b); i++ {
		s += uint32(b[i]) << (24 - 8*uint(i%4))
	}
	return int(s)
}

package gen

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"hash/crc32"
	"image"
	"image/color"
	"image/jpeg"
	"math/rand"
)

// Img describes an image file.
type Img struct {
	Seed   uint64
	Kind   string // rgb rgba gray graya idx jpeg jpeggray
	W, H   int
	Filter int  `json:",omitempty"` // PNG row filter, 5: mixed
	Split  int  `json:",omitempty"` // size of IDAT chunks, 0: one chunk
	Anc    bool `json:",omitempty"` // ancillary chunks around
	Opaque bool `json:",omitempty"`
	Noise  bool `json:",omitempty"`
	Depth  int  `json:",omitempty"` // bits per sample of gray and idx, 0: 8
	Key    bool `json:",omitempty"` // one transparent colour (tRNS)
	Keys   bool `json:",omitempty"` // idx: every colour has its own transparency
	Empty  bool `json:",omitempty"` // chunks without data
	Stored bool `json:",omitempty"` // not compressed: similar pictures give similar files
	Twist  int  `json:",omitempty"` // the picture of the same seed with one sample changed
}

// Pix is what the image shows: one byte per component, no alpha.
type Pix struct {
	W, H  int
	Comps int // 1 gray, 3 rgb
	Data  []byte
	Alpha []byte // nil: nothing transparent
	JPEG  []byte // not nil: the file itself is embedded
}

func (s Img) pixels() (px []byte, comps int, pal []byte) {
	r := rand.New(rand.NewSource(int64(s.Seed)))
	comps = map[string]int{"rgb": 3, "rgba": 4, "gray": 1, "graya": 2, "idx": 1, "jpeg": 3, "jpeggray": 1, "jpegcmyk": 4}[s.Kind]
	px = make([]byte, s.W*s.H*comps)
	for i := range px {
		if s.Noise {
			px[i] = byte(r.Intn(256))
		} else {
			px[i] = byte(i*7 + int(s.Seed%251))
		}
	}
	if s.Twist > 0 {
		px[(s.Twist-1)%len(px)] ^= 0x55
	}
	if s.Opaque && (comps == 4 || comps == 2) {
		for i := comps - 1; i < len(px); i += comps {
			px[i] = 255
		}
	}
	if s.Kind == "idx" {
		n := 2 + r.Intn(1<<uint(s.depth())-1)
		pal = make([]byte, 3*n)
		r.Read(pal)
		if r.Intn(8) == 0 {
			for i := range pal {
				pal[i] = "\n \t\r"[i%4]
			}
		}
		for i := range px {
			px[i] = byte(int(px[i]) % n)
		}
	} else if s.Kind == "gray" {
		for i := range px {
			px[i] >>= uint(8 - s.depth())
		}
	}
	return
}

func (s Img) depth() int {
	if (s.Kind == "gray" || s.Kind == "idx") && (s.Depth == 1 || s.Depth == 2 || s.Depth == 4) {
		return s.Depth
	}
	return 8
}

// pack puts samples of less than a byte together, rows start at a byte.
func (s Img) pack(px []byte) []byte {
	d := s.depth()
	if d == 8 {
		return px
	}
	row := (s.W*d + 7) / 8
	o := make([]byte, row*s.H)
	for y := 0; y < s.H; y++ {
		for x := 0; x < s.W; x++ {
			o[y*row+x*d/8] |= px[y*s.W+x] << uint(8-d-x*d%8)
		}
	}
	return o
}

// cmyk: enough of a JPEG with four components for its header to be read; the
// library embeds the bytes as they are.
func (s Img) cmyk() []byte {
	r := rand.New(rand.NewSource(int64(s.Seed)))
	o := []byte{0xff, 0xd8, 0xff, 0xee, 0, 14, 'A', 'd', 'o', 'b', 'e', 0, 100, 0, 0, 0, 0, 0}
	o = append(o, 0xff, 0xc0, 0, 20, 8, byte(s.H>>8), byte(s.H), byte(s.W>>8), byte(s.W), 4)
	for c := byte(1); c <= 4; c++ {
		o = append(o, c, 0x11, 0)
	}
	o = append(o, 0xff, 0xda, 0, 14, 4, 1, 0, 2, 0, 3, 0, 4, 0, 0, 63, 0)
	for k := 5 + r.Intn(60); k > 0; k-- {
		o = append(o, byte(r.Intn(255)))
	}
	if s.Twist > 0 {
		o[len(o)-1-s.Twist%4] ^= 0x55
	}
	return append(o, 0xff, 0xd9)
}

func chunk(o *bytes.Buffer, typ string, d []byte) {
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], uint32(len(d)))
	o.Write(l[:])
	c := crc32.NewIEEE()
	c.Write([]byte(typ))
	c.Write(d)
	o.WriteString(typ)
	o.Write(d)
	binary.BigEndian.PutUint32(l[:], c.Sum32())
	o.Write(l[:])
}

func paeth(a, b, c byte) byte {
	p := int(a) + int(b) - int(c)
	abs := func(x int) int {
		if x < 0 {
			return -x
		}
		return x
	}
	pa, pb, pc := abs(p-int(a)), abs(p-int(b)), abs(p-int(c))
	if pa <= pb && pa <= pc {
		return a
	} else if pb <= pc {
		return b
	}
	return c
}

func (s Img) filtered(px []byte, bpp int) []byte {
	w := (s.W*bpp*s.depth() + 7) / 8
	r := rand.New(rand.NewSource(int64(s.Seed) + 1))
	var o bytes.Buffer
	prev := make([]byte, w)
	for y := 0; y < s.H; y++ {
		row := px[y*w : (y+1)*w]
		f := s.Filter
		if f >= 5 {
			f = r.Intn(5)
		}
		o.WriteByte(byte(f))
		for x := 0; x < w; x++ {
			var a, b, c byte
			b = prev[x]
			if x >= bpp {
				a, c = row[x-bpp], prev[x-bpp]
			}
			v := row[x]
			switch f {
			case 1:
				v -= a
			case 2:
				v -= b
			case 3:
				v -= byte((int(a) + int(b)) / 2)
			case 4:
				v -= paeth(a, b, c)
			}
			o.WriteByte(v)
		}
		prev = row
	}
	return o.Bytes()
}

// Make makes the file and what it shows.
func (s Img) Make() ([]byte, Pix) {
	if s.W < 1 {
		s.W = 1
	}
	if s.H < 1 {
		s.H = 1
	}
	px, comps, pal := s.pixels()
	out := Pix{W: s.W, H: s.H, Comps: 3}
	var o bytes.Buffer
	if s.Kind == "jpeg" || s.Kind == "jpeggray" {
		var im image.Image
		if comps == 1 {
			g := image.NewGray(image.Rect(0, 0, s.W, s.H))
			copy(g.Pix, px)
			im = g
			out.Comps = 1
		} else {
			g := image.NewRGBA(image.Rect(0, 0, s.W, s.H))
			for i := 0; i < s.W*s.H; i++ {
				g.Set(i%s.W, i/s.W, color.RGBA{px[3*i], px[3*i+1], px[3*i+2], 255})
			}
			im = g
		}
		jpeg.Encode(&o, im, &jpeg.Options{Quality: 80})
		out.JPEG = o.Bytes()
		return o.Bytes(), out
	}
	if s.Kind == "jpegcmyk" {
		out.Comps, out.JPEG = 4, s.cmyk()
		return out.JPEG, out
	}
	o.WriteString("\x89PNG\r\n\x1a\n")
	var ihdr [13]byte
	binary.BigEndian.PutUint32(ihdr[0:], uint32(s.W))
	binary.BigEndian.PutUint32(ihdr[4:], uint32(s.H))
	ihdr[8] = byte(s.depth())
	ihdr[9] = map[string]byte{"rgb": 2, "rgba": 6, "gray": 0, "graya": 4, "idx": 3}[s.Kind]
	chunk(&o, "IHDR", ihdr[:])
	if s.Anc {
		chunk(&o, "gAMA", []byte{0, 0, 0xb1, 0x8f})
		chunk(&o, "tEXt", []byte("Comment\x00IDAT PLTE"))
	}
	if pal != nil {
		chunk(&o, "PLTE", pal)
	}
	if s.Keys && s.Kind == "idx" {
		r := rand.New(rand.NewSource(int64(s.Seed + 1)))
		t := make([]byte, 1+r.Intn(len(pal)/3))
		for i := range t {
			t[i] = []byte{0, 255, 255, byte(r.Intn(256))}[r.Intn(4)]
		}
		chunk(&o, "tRNS", t)
		for i := 0; i < s.W*s.H; i++ {
			a := byte(255)
			if int(px[i]) < len(t) {
				a = t[px[i]]
			}
			out.Alpha = append(out.Alpha, a)
		}
		s.Key = false
	}
	key := -1 // the pixel whose colour is transparent
	if s.Key && (s.Kind == "rgb" || s.Kind == "gray" || s.Kind == "idx") {
		key = int(s.Seed % uint64(s.W*s.H))
		t := []byte{0, px[key]}
		switch s.Kind {
		case "rgb":
			t = []byte{0, px[3*key], 0, px[3*key+1], 0, px[3*key+2]}
		case "idx":
			t = bytes.Repeat([]byte{255}, int(px[key])+1)
			t[px[key]] = 0
			if s.Opaque { // more entries than needed
				for len(t) < len(pal)/3 {
					t = append(t, 255)
				}
			}
		}
		chunk(&o, "tRNS", t)
		for i := 0; i < s.W*s.H; i++ {
			a := byte(255)
			if bytes.Equal(px[i*comps:i*comps+comps], px[key*comps:key*comps+comps]) {
				a = 0
			}
			out.Alpha = append(out.Alpha, a)
		}
	}
	if s.Empty {
		chunk(&o, "prVt", nil)
		chunk(&o, "IDAT", nil)
	}
	var z bytes.Buffer
	lv := zlib.DefaultCompression
	if s.Stored {
		lv = zlib.NoCompression
	}
	zw, _ := zlib.NewWriterLevel(&z, lv)
	zw.Write(s.filtered(s.pack(px), comps))
	zw.Close()
	d := z.Bytes()
	if s.Split <= 0 {
		chunk(&o, "IDAT", d)
	} else {
		for len(d) > 0 {
			n := s.Split
			if n > len(d) {
				n = len(d)
			}
			chunk(&o, "IDAT", d[:n])
			d = d[n:]
			if s.Empty && len(d) > 0 && len(d) < 3*n {
				chunk(&o, "IDAT", nil)
			}
		}
	}
	if s.Anc {
		chunk(&o, "tIME", []byte{7, 0xd0, 1, 1, 1, 1, 1})
	}
	chunk(&o, "IEND", nil)
	switch s.Kind {
	case "rgb":
		out.Data = px
	case "gray":
		out.Comps = 1
		for _, v := range px {
			out.Data = append(out.Data, byte(int(v)*255/(1<<uint(s.depth())-1)))
		}
	case "idx":
		for _, p := range px {
			out.Data = append(out.Data, pal[3*int(p):3*int(p)+3]...)
		}
	case "rgba":
		for i := 0; i < len(px); i += 4 {
			out.Data = append(out.Data, px[i:i+3]...)
			out.Alpha = append(out.Alpha, px[i+3])
		}
	case "graya":
		out.Comps = 1
		for i := 0; i < len(px); i += 2 {
			out.Data = append(out.Data, px[i])
			out.Alpha = append(out.Alpha, px[i+1])
		}
	}
	return o.Bytes(), out
}

// RandomImg draws a description.
func RandomImg(r *rand.Rand) Img {
	k := []string{"rgb", "rgba", "gray", "graya", "idx", "jpeg", "jpeggray", "rgb", "gray", "idx", "jpegcmyk"}[r.Intn(11)]
	s := Img{Seed: r.Uint64() >> 1, Kind: k, W: 1 + r.Intn(12), H: 1 + r.Intn(12), Filter: r.Intn(6), Anc: r.Intn(3) == 0, Opaque: r.Intn(4) == 0, Noise: r.Intn(2) == 0}
	if r.Intn(4) == 0 {
		s.Split = 1 + r.Intn(40)
	}
	if r.Intn(3) == 0 {
		s.Depth = []int{1, 2, 4}[r.Intn(3)]
	}
	s.Key = r.Intn(5) == 0
	s.Keys = k == "idx" && r.Intn(3) == 0
	s.Empty = r.Intn(6) == 0
	s.Stored = r.Intn(4) == 0
	switch r.Intn(40) {
	case 0:
		s.W, s.H, s.Noise, s.Split = 100+r.Intn(80), 100+r.Intn(80), true, []int{0, 0, 8192, 40000}[r.Intn(4)]
	case 1:
		s.W, s.H = 200+r.Intn(100), 1
	}
	return s
}

// Shrinks gives simpler descriptions.
func (s Img) Shrinks() []Img {
	var out []Img
	add := func(f func(*Img)) {
		c := s
		f(&c)
		if c != s {
			out = append(out, c)
		}
	}
	add(func(t *Img) { *t = Img{Kind: "rgb", W: 1, H: 1} })
	add(func(t *Img) { *t = Img{Kind: s.Kind, W: 1, H: 1} })
	add(func(t *Img) { t.W, t.H = (s.W+1)/2, (s.H+1)/2 })
	add(func(t *Img) { t.Filter = 0 })
	add(func(t *Img) { t.Split = 0 })
	add(func(t *Img) { t.Anc = false })
	add(func(t *Img) { t.Depth = 0 })
	add(func(t *Img) { t.Key = false })
	add(func(t *Img) { t.Keys = false })
	add(func(t *Img) { t.Empty = false })
	add(func(t *Img) { t.Stored = false })
	add(func(t *Img) { t.Twist = 0 })
	add(func(t *Img) { t.Noise = false })
	add(func(t *Img) { t.Seed = 0 })
	return out
}

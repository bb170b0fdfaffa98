package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"strings"
	"time"

	gopdf "github.com/signintech/pdft/minigopdf"

	"verif/sim/gen"
	"verif/sim/pdfx"
)

// gsession is a document drawn from nothing, and its model.
type gsession struct {
	dmg   bool // damaged input was given
	gp    *gopdf.GoPdf
	prot  *protM
	size  [2]float64
	pages []gpage
	fonts map[string]*fontM
	cur   *fontM
	fsize int
	under bool
	col   *[3]float64 // set colour of texts
	x, y  float64
	lm    float64
	tm    float64
	lw    float64 // the width borders are drawn for
	gs    gstate
	info  map[string]string
	tried bool        // a write was tried
	kept  [][2][]byte // what was returned, and what it was
	old   [][2][]byte // and for documents before this one
	last  []byte
	imgs  map[string]map[int]bool
}

type gglyph struct {
	r    rune
	f    *fontM
	size int
	col  [3]float64
	x, y float64
	kern int
}

// gstate: how lines and areas are drawn
type gstate struct {
	lw           float64
	dash         string
	stroke, fill [3]float64
}

// gpath is a line or area.
type gpath struct {
	segs  []gseg
	paint string // S f B
	gs    gstate
	group int // paths of one group may come in any order
}

type gseg struct {
	op string // m l c h
	v  []float64
}

var defaultState = gstate{lw: 1, dash: "[]0"}

func rgbOf(c *[3]int) (o [3]float64) {
	for i := range o {
		o[i] = float64(uint8(c[i])) / 255
	}
	return
}

func rectPath(x, y, w, h float64) []gseg {
	return []gseg{{"m", []float64{x, y}}, {"l", []float64{x + w, y}}, {"l", []float64{x + w, y + h}}, {"l", []float64{x, y + h}}, {"h", nil}}
}

func linePath(x, y, x2, y2 float64) []gseg {
	return []gseg{{"m", []float64{x, y}}, {"l", []float64{x2, y2}}}
}

// readPaths gives what is drawn besides texts and images, the rest of the
// operators, and the order of everything.
func readPaths(ops []pdfx.ContentOp) (paths []gpath, rest []pdfx.ContentOp, order []string, odd []string) {
	st := defaultState
	var stack []gstate
	var segs []gseg
	nums := func(o pdfx.ContentOp, n int) []float64 {
		var v []float64
		for _, a := range o.Args {
			x, ok := a.(pdfx.Num)
			if ok {
				v = append(v, x.V)
			}
		}
		if len(v) != n {
			odd = append(odd, showOp(o))
			return make([]float64, n)
		}
		return v
	}
	shown := 0
	for _, o := range ops {
		switch o.Op {
		case "q":
			stack = append(stack, st)
		case "Q":
			if len(stack) > 0 {
				st = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
		case "w":
			st.lw = nums(o, 1)[0]
		case "d":
			st.dash = ""
			for _, a := range o.Args {
				st.dash += strings.ReplaceAll(pdfx.Show(a), " ", ",")
			}
			st.dash = strings.ReplaceAll(st.dash, ",]", "]")
		case "G":
			v := nums(o, 1)[0]
			st.stroke = [3]float64{v, v, v}
		case "g":
			v := nums(o, 1)[0]
			st.fill = [3]float64{v, v, v}
		case "RG":
			copy(st.stroke[:], nums(o, 3))
		case "rg":
			copy(st.fill[:], nums(o, 3))
		case "m", "l":
			segs = append(segs, gseg{o.Op, nums(o, 2)})
			continue
		case "c":
			segs = append(segs, gseg{"c", nums(o, 6)})
			continue
		case "h":
			segs = append(segs, gseg{"h", nil})
			continue
		case "re":
			v := nums(o, 4)
			segs = append(segs, rectPath(v[0], v[1], v[2], v[3])...)
			continue
		case "s", "b", "S", "f", "F", "B":
			pa := strings.Replace(o.Op, "F", "f", 1)
			if pa == "s" || pa == "b" {
				pa = strings.ToUpper(pa)
				if len(segs) > 2 {
					segs = append(segs, gseg{"h", nil})
				}
			}
			paths = append(paths, gpath{segs: segs, paint: pa, gs: st})
			order = append(order, "path")
			segs = nil
			continue
		case "BT":
			shown = 0
		case "TJ", "Tj":
			for _, a := range o.Args {
				if s, ok := a.(pdfx.Str); ok {
					shown += len(s)
				} else if l, ok := a.(pdfx.Arr); ok {
					for _, e := range l {
						if s, ok := e.(pdfx.Str); ok {
							shown += len(s)
						}
					}
				}
			}
		case "ET":
			if shown > 0 && (len(order) == 0 || order[len(order)-1] != "text") {
				order = append(order, "text")
			}
		case "Do":
			order = append(order, "image")
		}
		rest = append(rest, o)
	}
	if len(segs) > 0 {
		odd = append(odd, "a path is not painted")
	}
	return
}

func samePath(a, b gpath) string {
	if a.paint != b.paint {
		return fmt.Sprintf("painted with %s, expected %s", a.paint, b.paint)
	}
	if len(a.segs) != len(b.segs) {
		return fmt.Sprintf("%d segments, expected %d", len(a.segs), len(b.segs))
	}
	for i := range a.segs {
		if a.segs[i].op != b.segs[i].op {
			return fmt.Sprintf("segment %d is %s, expected %s", i+1, a.segs[i].op, b.segs[i].op)
		}
		for k := range a.segs[i].v {
			if !near(a.segs[i].v[k], b.segs[i].v[k], .021) {
				return fmt.Sprintf("segment %d is %.2f, expected %.2f", i+1, a.segs[i].v, b.segs[i].v)
			}
		}
	}
	col := func(x, y [3]float64) bool {
		return near(x[0], y[0], .0052) && near(x[1], y[1], .0052) && near(x[2], y[2], .0052)
	}
	if a.paint != "f" && (!near(a.gs.lw, b.gs.lw, .0052) || a.gs.dash != b.gs.dash || !col(a.gs.stroke, b.gs.stroke)) {
		return fmt.Sprintf("drawn with width %.2f, dashes %s, colour %.2f, expected %.2f, %s, %.2f", a.gs.lw, a.gs.dash, a.gs.stroke, b.gs.lw, b.gs.dash, b.gs.stroke)
	}
	if a.paint != "S" && !col(a.gs.fill, b.gs.fill) {
		return fmt.Sprintf("filled with %.2f, expected %.2f", a.gs.fill, b.gs.fill)
	}
	return ""
}

type gimg struct {
	x, y, w, h float64
	px         *gen.Pix
	key        string
}

type gpage struct {
	w, h   float64
	glyphs []gglyph
	imgs   []gimg
	paths  []gpath
	order  []string
}

func (p *gpage) drawn(what string) {
	if what == "text" && len(p.order) > 0 && p.order[len(p.order)-1] == "text" {
		return
	}
	p.order = append(p.order, what)
}

func (g *gsession) path(segs []gseg, paint string) {
	p := g.page()
	p.paths = append(p.paths, gpath{segs: segs, paint: paint, gs: g.gs, group: -1})
	p.drawn("path")
}

func paintOf(style string) string {
	switch style {
	case "F":
		return "f"
	case "FD", "DF":
		return "B"
	}
	return "S"
}

func (g *gsession) page() *gpage { return &g.pages[len(g.pages)-1] }

func (s *session) gdo(op Op) {
	t, st := s.t, s.t.w.st
	g := s.g
	if g == nil && op.K != "gstart" {
		return
	}
	if g != nil && len(g.pages) == 0 && !has("gstart gpage gfont gkern gsetfont gmargin ginfo", op.K) {
		return
	}
	if g != nil && len(op.Damage) > 0 {
		g.dmg = true
	}
	switch op.K {
	case "gstart":
		gp := &gopdf.GoPdf{}
		var old [][2][]byte
		if g != nil {
			old = append(g.old, g.kept...)
			if op.Pos == 1 { // the same one starts again
				gp = g.gp
				st.Checked["documents begun anew with one GoPdf"]++
			}
		}
		g = &gsession{gp: gp, old: old, size: [2]float64{op.W, op.H}, fonts: map[string]*fontM{}, lm: 10, tm: 10, lw: 1, gs: defaultState}
		s.g = g
		c := gopdf.Config{Unit: "pt", PageSize: gopdf.Rect{W: op.W, H: op.H}}
		if op.On {
			u, o := s.pw(op.User), s.pw(op.Owner)
			ub, ob := full(u), full(o)
			uc, oc := append([]byte(nil), ub...), append([]byte(nil), ob...)
			c.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: op.Perm, UserPass: u, OwnerPass: o}
			g.prot = &protM{user: op.User, owner: op.Owner, perm: op.Perm, ownerSet: len(op.Owner) > 0}
			g.gp.Start(c)
			if !bytes.Equal(ub, uc) || !bytes.Equal(ob, oc) {
				s.bad("modified", "Start changed the caller's memory")
			}
		} else {
			g.gp.Start(c)
		}
		if op.Kind%5 == 2 {
			g.gp.SetNoCompression()
		} else if op.Kind > 0 {
			g.gp.SetCompressLevel([]int{0, -2, 0, 1, 9}[op.Kind%5])
		}
	case "gpage":
		p := gpage{w: g.size[0], h: g.size[1]}
		if op.W > 0 {
			g.gp.AddPageWithOption(gopdf.PageOption{PageSize: gopdf.Rect{W: op.W, H: op.H}})
			p.w, p.h = op.W, op.H
		} else {
			g.gp.AddPage()
		}
		g.x, g.y = g.lm, g.tm
		g.gs = defaultState
		g.pages = append(g.pages, p)
	case "gfont":
		in := fontInput(op.Font)
		b := s.buf(in, op)
		var err error
		hit := false
		if op.Via == "file" {
			path := t.path("f.ttf")
			os.WriteFile(path, b, 0644)
			if op.Bad == "missing" {
				path = t.path("nosuch.ttf")
			}
			_, hit = t.disk(op.Faults, func() {
				if !op.On && op.Kind == 0 {
					err = g.gp.AddTTFFont(op.Name, path)
					return
				}
				err = g.gp.AddTTFFontWithOption(op.Name, path, gopdf.TtfOption{UseKerning: op.On, Style: op.Kind})
			})
		} else {
			r := newSimReader(b, op.Via, op.Chunk, op.Faults, st)
			if op.On || op.Kind != 0 {
				err = g.gp.AddTTFFontByReaderWithOption(op.Name, r, gopdf.TtfOption{UseKerning: op.On, Style: op.Kind})
			} else {
				err = g.gp.AddTTFFontByReader(op.Name, r)
			}
			if sr, ok := r.(*simReader); ok {
				hit = sr.hit
			}
		}
		if len(op.Damage) > 0 && op.Bad == "" {
			if err != nil {
				s.res = append(s.res, "error")
			} else {
				g.fonts[fkey(op.Name, op.Kind)] = &fontM{name: op.Name, f: in.f, tab: op.On}
			}
			return
		}
		ok := s.outcome(op, err, hit || op.Bad != "", "the font is damaged or could not be read")
		s.after(op, "font", b, in.b)
		if ok && !hit && op.Bad == "" {
			g.fonts[fkey(op.Name, op.Kind)] = &fontM{name: op.Name, f: in.f, tab: op.On}
		}
	case "gkern":
		f := g.fonts[fkey(op.Name, 0)]
		err := g.gp.KernOverride(op.Name, func(l, r rune, lp, rp uint, v int16) int16 { return v/2 + kernFn(op.Kind, l, r) })
		if s.outcome(op, err, f == nil, "there is no font of that name") && f != nil {
			f.kern = op.Kind
		}
	case "gsetfont":
		k := 0
		u := strings.ToUpper(op.Style)
		if strings.Contains(u, "B") {
			k |= gopdf.Bold
		}
		if strings.Contains(u, "I") {
			k |= gopdf.Italic
		}
		f := g.fonts[fkey(op.Name, k)]
		var err error
		if op.Size%2 == 0 {
			k2 := k
			if strings.Contains(u, "U") {
				k2 |= gopdf.Underline
			}
			err = g.gp.SetFontWithStyle(op.Name, k2, op.Size)
		} else {
			err = g.gp.SetFont(op.Name, op.Style, op.Size)
		}
		if s.outcome(op, err, f == nil, "there is no font of that name and style") && f != nil {
			g.cur, g.fsize, g.under = f, op.Size, strings.Contains(u, "U")
		}
	case "gcolor":
		c := rgbOf(op.Col)
		g.col = &c
		g.gp.SetTextColor(uint8(op.Col[0]), uint8(op.Col[1]), uint8(op.Col[2]))
	case "gxy":
		switch op.Kind {
		case 1:
			g.gp.SetX(op.X)
			g.x = op.X
		case 2:
			g.gp.SetY(op.Y)
			g.y = op.Y
		default:
			g.gp.SetX(op.X)
			g.gp.SetY(op.Y)
			g.x, g.y = op.X, op.Y
		}
	case "gbr":
		g.gp.Br(op.H)
		g.x, g.y = g.lm, g.y+op.H
	case "gmargin":
		g.gp.SetLeftMargin(op.X)
		g.gp.SetTopMargin(op.Y)
		g.lm, g.tm = op.X, op.Y
	case "gpos":
		if x, y := g.gp.GetX(), g.gp.GetY(); !near(x, g.x, .01) || !near(y, g.y, .01) {
			s.bad("measure", "the current position is (%.2f, %.2f), expected (%.2f, %.2f)", x, y, g.x, g.y)
			g.x, g.y = x, y
		}
	case "gstyle":
		switch op.Kind {
		case 0:
			g.gp.SetLineWidth(op.W)
			g.gs.lw, g.lw = op.W, op.W
		case 1:
			g.gp.SetLineType(op.Name)
			g.gs.dash = map[string]string{"dashed": "[5]2", "dotted": "[2,3]11"}[op.Name]
			if g.gs.dash == "" {
				g.gs.dash = "[]0"
			}
		case 2, 3:
			v := math.Max(0, math.Min(1, op.W))
			if op.Kind == 2 {
				g.gp.SetGrayFill(op.W)
				g.gs.fill = [3]float64{v, v, v}
			} else {
				g.gp.SetGrayStroke(op.W)
				g.gs.stroke = [3]float64{v, v, v}
			}
		case 4:
			g.gp.SetFillColor(uint8(op.Col[0]), uint8(op.Col[1]), uint8(op.Col[2]))
			g.gs.fill = rgbOf(op.Col)
		case 5:
			g.gp.SetStrokeColor(uint8(op.Col[0]), uint8(op.Col[1]), uint8(op.Col[2]))
			g.gs.stroke = rgbOf(op.Col)
		}
	case "gshape":
		H := g.page().h
		switch op.Kind {
		case 0:
			if op.Style == "" {
				g.gp.RectFromUpperLeft(op.X, op.Y, op.W, op.H)
			} else {
				g.gp.RectFromUpperLeftWithStyle(op.X, op.Y, op.W, op.H, op.Style)
			}
			g.path(rectPath(op.X, H-op.Y-op.H, op.W, op.H), paintOf(op.Style))
		case 1:
			if op.Style == "" {
				g.gp.RectFromLowerLeft(op.X, op.Y, op.W, op.H)
			} else {
				g.gp.RectFromLowerLeftWithStyle(op.X, op.Y, op.W, op.H, op.Style)
			}
			g.path(rectPath(op.X, H-op.Y, op.W, op.H), paintOf(op.Style))
		case 2:
			g.gp.Oval(op.X, op.Y, op.W, op.H)
			// four quarters from the lowest point on
			rx, ry := (op.W-op.X)/2, (op.H-op.Y)/2
			cx, cy := op.X+rx, H-op.Y-ry
			k := 0.55228
			q := func(ax, ay, bx, by, x, y float64) gseg { return gseg{"c", []float64{ax, ay, bx, by, x, y}} }
			g.path([]gseg{{"m", []float64{cx, cy - ry}},
				q(cx+rx*k, cy-ry, cx+rx, cy-ry*k, cx+rx, cy),
				q(cx+rx, cy+ry*k, cx+rx*k, cy+ry, cx, cy+ry),
				q(cx-rx*k, cy+ry, cx-rx, cy+ry*k, cx-rx, cy),
				q(cx-rx, cy-ry*k, cx-rx*k, cy-ry, cx, cy-ry)}, "S")
		case 3:
			x3, y3 := op.X+op.Y, op.W-op.H
			g.gp.Curve(op.X, op.Y, op.W, op.Y, op.W, op.H, x3, y3, op.Style)
			g.path([]gseg{{"m", []float64{op.X, H - op.Y}}, {"c", []float64{op.W, H - op.Y, op.W, H - op.H, x3, H - y3}}}, paintOf(strings.ToUpper(strings.TrimSpace(op.Style))))
		}
	case "gtext", "gcell":
		var err error
		var rect *gopdf.Rect
		opt := gopdf.CellOption{Align: gopdf.Left | gopdf.Top, Float: gopdf.Right}
		if op.K == "gcell" && !op.On {
			rect = &gopdf.Rect{W: op.W, H: op.H}
		}
		if op.K == "gtext" {
			err = g.gp.Text(op.Text)
			opt = gopdf.CellOption{}
		} else if op.Align != 0 || op.Kind != 0 || op.Pos != 0 {
			opt = gopdf.CellOption{Align: op.Align, Border: op.Kind, Float: op.Pos}
			err = g.gp.CellWithOption(rect, op.Text, opt)
		} else {
			err = g.gp.Cell(rect, op.Text)
		}
		if !s.outcome(op, err, op.Bad != "", "the font has not all characters") || op.Bad != "" {
			return
		}
		if rect != nil && (rect.W != op.W || rect.H != op.H) {
			s.bad("modified", "%s changed the caller's rectangle", op.K)
		}
		p := g.page()
		gl, tw := s.shape(g.cur, op.Text, g.fsize)
		up := float64(g.cur.f.Upem)
		asc, desc := float64(g.cur.f.Asc)/up*float64(g.fsize), float64(g.cur.f.Desc)/up*float64(g.fsize)
		cw, ch := tw, asc-desc
		if rect != nil {
			cw, ch = op.W, op.H
		}
		X, Y := g.x, p.h-g.y
		if op.K == "gcell" {
			switch {
			case opt.Align&gopdf.Right != 0:
				X = g.x + cw - tw
			case opt.Align&gopdf.Center != 0:
				X = g.x + cw/2 - tw/2
			}
			switch {
			case opt.Align&gopdf.Bottom != 0:
				Y = p.h - g.y - ch - desc
			case opt.Align&gopdf.Middle != 0:
				Y = p.h - g.y - ch/2 - (asc+desc)/2
			default:
				Y = p.h - g.y - asc
			}
		}
		if g.col != nil {
			g.gs.fill = *g.col
		}
		for _, x := range gl {
			X += float64(x.kern) * float64(g.fsize) / 1000
			p.glyphs = append(p.glyphs, gglyph{r: x.r, f: g.cur, size: g.fsize, col: g.gs.fill, x: X, y: Y, kern: x.kern})
			X += float64(g.cur.f.Width(x.gid)) * float64(g.fsize) / 1000
		}
		if len(gl) > 0 {
			p.drawn("text")
		}
		if g.under {
			th := float64(g.cur.f.UThick) / up * float64(g.fsize)
			top := p.h - (g.y - float64(g.cur.f.UPos)/up*float64(g.fsize)) - 0.7*float64(g.fsize)
			g.path(rectPath(g.x, top, cw, -th), "f")
		}
		if op.K == "gcell" && opt.Border != 0 {
			o := g.lw / 2
			t, b := p.h-g.y, p.h-g.y-ch
			n := len(p.paths)
			for _, l := range []struct {
				bit int
				v   [4]float64
			}{{gopdf.Top, [4]float64{g.x - o, t, g.x + cw + o, t}}, {gopdf.Left, [4]float64{g.x, t, g.x, b}},
				{gopdf.Right, [4]float64{g.x + cw, t, g.x + cw, b}}, {gopdf.Bottom, [4]float64{g.x - o, b, g.x + cw + o, b}}} {
				if opt.Border&l.bit != 0 {
					g.path(linePath(l.v[0], l.v[1], l.v[2], l.v[3]), "S")
				}
			}
			for i := n; i < len(p.paths); i++ {
				p.paths[i].group = n
			}
		}
		if op.K == "gtext" || opt.Float == 0 || opt.Float&gopdf.Right != 0 {
			g.x += cw
		}
		if opt.Float&gopdf.Bottom != 0 {
			g.y += ch
		}
	case "gmeasure":
		v, err := g.gp.MeasureTextWidth(op.Text)
		if s.outcome(op, err, op.Bad != "", "the font has not all characters") && op.Bad == "" {
			if _, tw := s.shape(g.cur, op.Text, g.fsize); !near(v, tw, .005+tw*1e-6) {
				s.bad("measure", "width of %.40q is %v, not %v", op.Text, v, tw)
			}
		}
	case "gline":
		g.gp.Line(op.X, op.Y, op.W, op.H)
		H := g.page().h
		g.path(linePath(op.X, H-op.Y, op.W, H-op.H), "S")
	case "gimg":
		in := imgInput(op.Img)
		b := s.buf(in, op)
		var err error
		var h gopdf.ImageHolder
		hit := false
		key := string(in.sum[:])
		rect := &gopdf.Rect{W: op.W, H: op.H}
		if op.W == 0 { // its own size, at 128 pixels per inch
			w, h := in.px.W*72/128, in.px.H*72/128
			if w == 0 {
				w = h * in.px.W / in.px.H
			}
			if h == 0 {
				h = w * in.px.H / in.px.W
			}
			rect, op.W, op.H = nil, float64(w), float64(h)
		}
		switch op.Via {
		case "file":
			path := t.path("f.ttf")
			path = strings.TrimSuffix(path, "f.ttf") + fmt.Sprintf("i%x.img", in.sum[:4])
			os.WriteFile(path, b, 0644)
			if int(op.Y)%2 == 0 {
				_, hit = t.disk(op.Faults, func() { h, err = gopdf.ImageHolderByPath(path) })
			} else {
				_, hit = t.disk(op.Faults, func() { err = g.gp.Image(path, op.X, op.Y, rect) })
				key = path
			}
		case "reader":
			r := newSimReader(b, op.Via, op.Chunk, op.Faults, st)
			h, err = gopdf.ImageHolderByReader(r)
			if sr, ok := r.(*simReader); ok {
				hit = sr.hit
			}
		default:
			h, err = gopdf.ImageHolderByBytes(b)
		}
		if err == nil && h != nil {
			err = g.gp.ImageByHolder(h, op.X, op.Y, rect)
		}
		if rect != nil {
			if rect.W != op.W || rect.H != op.H {
				s.bad("modified", "the rectangle given for an image has changed")
			}
			rect.W, rect.H = 77, 88 // the caller's own again
		}
		if s.outcome(op, err, hit || op.Bad != "", "the image is damaged or could not be read") && !hit && op.Bad == "" {
			p := g.page()
			p.imgs = append(p.imgs, gimg{op.X, p.h - op.Y - op.H, op.W, op.H, &in.px, key})
			p.drawn("image")
		}
		if len(op.Damage) == 0 {
			s.after(op, "image", b, in.b)
		}
	case "ginfo":
		in := gopdf.PdfInfo{Title: op.Text, Author: op.Name}
		g.info = map[string]string{"Title": op.Text, "Author": op.Name}
		if op.Kind > 0 {
			in.Subject, in.Creator, in.Producer = op.Style, op.Text+"c", op.Name+"p"
			g.info["Subject"], g.info["Creator"], g.info["Producer"] = in.Subject, in.Creator, in.Producer
			in.CreationDate = time.Unix(1e9+int64(op.Kind)*7777, 0).In(time.FixedZone("", (op.Kind%25-12)*3600+op.Kind%2*1800))
			g.info["CreationDate"] = in.CreationDate.Format("20060102150405-07'00'")
		}
		g.gp.SetInfo(in)
	case "gbytes":
		var b []byte
		var err error
		if s.opi%2 == 0 && !g.dmg { // it ends the program on an error
			b = g.gp.GetBytesPdf()
		} else {
			b, err = g.gp.GetBytesPdfReturnErr()
		}
		if !s.outcome(op, err, false, "") {
			return
		}
		g.kept = append(g.kept, [2][]byte{b, append([]byte(nil), b...)})
		s.gcheck(append([]byte(nil), b...))
	case "gwrite":
		path := t.path("out.pdf")
		if op.Name == "longer" {
			os.WriteFile(path, bytes.Repeat([]byte("old content\n"), 30000), 0644)
		}
		if op.Name == "nodir" {
			path = t.path("no/such/dir/out.pdf")
		}
		var err error
		g.tried = true
		crashed, hit := t.disk(op.Faults, func() { err = g.gp.WritePdf(path) })
		if op.Name == "nodir" {
			s.t.w.st.Faults["disk no such directory"]++
			hit = true
		}
		if crashed {
			s.res = append(s.res, "crash")
			s.dead = true
			return
		}
		if !s.outcome(op, err, hit, "the disk failed") || hit {
			return
		}
		b, err := os.ReadFile(path)
		if err != nil {
			s.bad("lost", "WritePdf wrote no file: %v", err)
			return
		}
		s.gcheck(b)
	case "gread":
		if op.On {
			g.gp.Close()
		} else if g.last != nil || len(g.kept) > 0 || g.tried {
			g.gp.Close()
		}
		r := newRand("gread", op.Chunk)
		var out []byte
		mode := r.Intn(4)
		empty := 0
		for {
			n := 1 + r.Intn(700)
			switch mode {
			case 0:
				n = 1 + r.Intn(5000)
			case 1:
				n = 1 << 20
			case 2:
				n = 512
				if r.Intn(10) == 0 {
					n = 0
				}
			}
			p := make([]byte, n)
			c, err := g.gp.Read(p)
			if c < 0 || c > n {
				s.bad("err", "Read returns %d for a buffer of %d", c, n)
				return
			}
			out = append(out, p[:c]...)
			if err == io.EOF {
				break
			}
			if err != nil {
				s.bad("err", "Read fails: %v", err)
				return
			}
			if c == 0 && n > 0 {
				if empty++; empty > 100 {
					s.bad("hang", "Read makes no progress")
					return
				}
			}
		}
		st.Faults["caller reads in pieces"]++
		for i := 0; i < 2; i++ {
			if c, err := g.gp.Read(make([]byte, 10)); c != 0 || err != io.EOF {
				s.bad("lost", "after the end, Read returns %d, %v", c, err)
			}
		}
		s.gcheck(out)
	default:
		panic("unknown call " + op.K)
	}
}

// gcheck: the document as it was delivered.
func (s *session) gcheck(b []byte) {
	g := s.g
	g.last = b
	for _, k := range append(g.old[:len(g.old):len(g.old)], g.kept...) {
		if !bytes.Equal(k[0], k[1]) {
			s.bad("modified", "bytes returned earlier have changed")
		}
	}
	o := out{op: s.opi, b: b}
	if g.prot != nil {
		o.user = g.prot.user
	}
	s.outs = append(s.outs, o)
	s.t.w.st.Checked["saved documents"]++
	l := &viols{}
	defer func() {
		for _, v := range l.v {
			s.bad(v.Cat, "%s", v.Msg)
		}
	}()
	d := openOut(b, g.prot, l)
	if d == nil {
		return
	}
	newDups(d, nil, l)
	for _, m := range d.Dangling {
		l.add("struct", "reference to an object that does not exist: %s", m)
	}
	if len(d.Pages) != len(g.pages) {
		l.add("pages", "the document has %d pages, expected %d", len(d.Pages), len(g.pages))
		return
	}
	if g.info == nil && len(d.Dict(d.Trailer["Info"])) > 0 {
		l.add("struct", "there is document information, none was given")
	}
	if g.info != nil {
		in := d.Dict(d.Trailer["Info"])
		for _, k := range []string{"Author", "Title", "Subject", "Creator", "Producer", "CreationDate"} {
			v, _ := d.Resolve(in[pdfx.Name(k)]).(pdfx.Str)
			if g.info[k] == "" {
				if len(v) > 0 {
					l.add("struct", "document information %s is %q, there is none", k, string(v))
				}
				continue
			}
			if k == "CreationDate" {
				if string(v) != "D:"+g.info[k] && string(v) != "D:"+g.info[k]+"'" {
					l.add("struct", "creation date is %q, expected %q", string(v), g.info[k])
				}
				continue
			}
			if len(v) < 2 || string(v[:2]) != "\xfe\xff" || string(utf16s(v[2:])) != g.info[k] {
				l.add("struct", "document information %s is %q, expected %q", k, string(v), g.info[k])
			}
		}
	}
	fonts := map[string]*fontA{}
	objs := map[string]map[int]bool{}
	for i, p := range g.pages {
		op := d.Pages[i]
		pn := i + 1
		s.t.w.st.Checked["pages"]++
		mb, _ := d.Resolve(op.Inh["MediaBox"]).(pdfx.Arr)
		if len(mb) != 4 || !near(numOf(d.Resolve(mb[2])), p.w, .011) || !near(numOf(d.Resolve(mb[3])), p.h, .011) {
			l.add("pages", "page %d has the size %s, expected %.2f x %.2f", pn, pdfx.Show(op.Inh["MediaBox"]), p.w, p.h)
		}
		cs, err := d.Content(op)
		if err != nil {
			l.add("struct", "page %d: %v", pn, err)
			continue
		}
		ops, err := pdfx.ContentOps(bytes.Join(cs, []byte("\n")))
		if err != nil {
			l.add("struct", "page %d: %v", pn, err)
			continue
		}
		paths, rest, order, odd := readPaths(ops)
		for _, o := range odd {
			l.add("text", "page %d: unexpected content: %s", pn, o)
		}
		dr := readMarks(0, nil, rest)
		for _, o := range dr.odd {
			l.add("text", "page %d: unexpected content: %s", pn, o)
		}
		res := d.Dict(op.Inh["Resources"])
		fontD, xobjD := d.Dict(res["Font"]), d.Dict(res["XObject"])
		type ga struct {
			g    glyphA
			m    markA
			x, y float64
		}
		var got []ga
		var imgs []markA
		for _, m := range dr.marks {
			if m.kind == "img" {
				imgs = append(imgs, m)
				continue
			}
			for _, x := range m.glyphs {
				got = append(got, ga{x, m, m.x, m.y})
			}
		}
		if len(got) != len(p.glyphs) {
			l.add("text", "page %d: %d characters are shown, expected %d", pn, len(got), len(p.glyphs))
			continue
		}
		adv := 0.0
		for k, w := range p.glyphs {
			a := got[k]
			if k == 0 || got[k-1].m.n != a.m.n {
				adv = 0
			}
			adv -= a.g.adj * a.m.size / 1000
			what := fmt.Sprintf("page %d, character %d %q", pn, k+1, w.r)
			if a.m.size != float64(w.size) {
				l.add("text", "%s: size %v, expected %d", what, a.m.size, w.size)
				break
			}
			if !near(a.x+adv, w.x, .031) || !near(a.y, w.y, .021) {
				l.add("text", "%s: at (%.2f, %.2f), expected (%.2f, %.2f)", what, a.x+adv, a.y, w.x, w.y)
				break
			}
			adv += float64(w.f.f.Width(w.f.f.Gid(w.r))) * a.m.size / 1000
			for c := range w.col {
				if !near(a.m.col[c], w.col[c], .0052) {
					l.add("text", "%s: colour %.2f, expected %.2f", what, a.m.col, w.col)
					break
				}
			}
			fo := fontD[a.m.font]
			if fo == nil {
				l.add("text", "%s: no font /%s in the resources", what, a.m.font)
				break
			}
			key := pdfx.Show(fo)
			fa := fonts[key]
			if fa == nil {
				fa = readFont(d, fo)
				fonts[key] = fa
			}
			if fa.err != "" {
				l.add("text", "%s: font /%s: %s", what, a.m.font, fa.err)
				break
			}
			if msg := fa.glyph(w.f, w.r, a.g.gid); msg != "" {
				l.add("text", "%s: %s", what, msg)
				break
			}
		}
		if len(imgs) != len(p.imgs) {
			l.add("image", "page %d: %d images are shown, expected %d", pn, len(imgs), len(p.imgs))
			continue
		}
		for k, w := range p.imgs {
			m := imgs[k].m
			if !near(m[0], w.w, .011) || !near(m[3], w.h, .011) || !near(m[4], w.x, .011) || !near(m[5], w.y, .011) {
				l.add("image", "page %d, image %d: drawn with matrix %.2f, expected x=%.2f y=%.2f w=%.2f h=%.2f", pn, k+1, m, w.x, w.y, w.w, w.h)
			}
			xo := xobjD[imgs[k].xobj]
			if xo == nil {
				l.add("image", "page %d, image %d: no XObject /%s", pn, k+1, imgs[k].xobj)
				continue
			}
			if msg := checkImg(d, xo, w.px); msg != "" {
				l.add("image", "page %d, image %d: %s", pn, k+1, msg)
			}
			if r, ok := xo.(pdfx.Ref); ok {
				if objs[w.key] == nil {
					objs[w.key] = map[int]bool{}
				}
				objs[w.key][r.N] = true
			}
		}
		if len(paths) != len(p.paths) {
			l.add("text", "page %d: %d lines and areas, expected %d", pn, len(paths), len(p.paths))
			continue
		}
		for k, w := range p.paths {
			msg := samePath(paths[k], w)
			for j := range p.paths {
				if msg != "" && w.group >= 0 && p.paths[j].group == w.group && samePath(paths[j], w) == "" {
					msg = ""
				}
			}
			if msg != "" {
				l.add("text", "page %d, line or area %d: %s", pn, k+1, msg)
				break
			}
		}
		if a, b := strings.Join(order, " "), strings.Join(p.order, " "); a != b {
			l.add("text", "page %d: things are drawn in the order %s, expected %s", pn, cutS(a), cutS(b))
		}
	}
}

func fkey(name string, style int) string { return fmt.Sprintf("%s\x00%d", name, style) }

func numOf(o pdfx.Obj) float64 {
	if n, ok := o.(pdfx.Num); ok {
		return n.V
	}
	return -1e9
}

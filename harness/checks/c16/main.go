// C16: drawing. A state is (pixel buffer, clip rectangle, inversion, font and
// text settings); a transition is one drawing or setting operation on the real
// MonoImg. Every operation with every combination of coordinates out of
// boundary sets is executed from several states, and all states reachable by
// short sequences of operations are explored; after each transition the buffer
// is compared pixel by pixel with a model that knows only the clip rectangle and
// the geometric footprint of the operation.
package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"time"

	gfx "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"

	"verif.local/harness/vk"
)

var c *vk.Check

func main() { vk.Main("C16", body) }

func body(k *vk.Check) {
	c = k
	c.Assume("Canvas dimensions are not negative.",
		"The clip rectangle is the bounding box intersected with the canvas, on all four sides; coordinates are relative to the bounding box.",
		"Circles with a radius of more than 100000 are not drawn (their cost is proportional to the radius).",
		"Footprints: pixel, line and rectangle exact; bitmap: pixels its data covers; half discs: the columns of their sides; circle arcs: the quadrant box and a ring of 1.5 pixels around the radius; rounded rectangles: the rectangle; text: the cell of the character, or for strings everything to the right of the leftmost line start and below the cursor.")
	c.Limit(5 * time.Second)
	c.Phase("pixels: canvas x clip x coordinates", pixels)
	c.Phase("lines", lines)
	c.Phase("filled rectangles", rects)
	c.Phase("rounded rectangles and arcs", arcs)
	c.Phase("bitmaps", bitmaps)
	c.Phase("characters", chars)
	c.Phase("strings", strs)
	c.Phase("huge and degenerate arguments", huge)
	c.Phase("large canvases", large)
	c.Phase("operation sequences", sequences)
	c.Phase("operations on several canvases in turn", several)
	c.Phase("all states of a tiny canvas", tiny)
}

// --- model -------------------------------------------------------------------

// in: a <= p < a+n without overflow.
func in(p, a, n int) bool { return n > 0 && p >= a && uint64(p)-uint64(a) < uint64(n) }

type box struct{ x, y, w, h int }

func (b box) has(x, y int) bool { return in(x, b.x, b.w) && in(y, b.y, b.h) }

// op is one operation: do executes it, foot is its footprint in coordinates
// relative to the clip rectangle, exact says that all of it must be drawn in
// the colour.
type op struct {
	name  string
	do    func(m *gfx.MonoImg)
	foot  func(x, y int) bool
	exact bool
	color bool
}

type state struct {
	W, H int
	bb   box
	inv  bool
	init byte // 0 clear, 1 set, 2 pattern, 3 set with bytes beyond the canvas
	pre  []op
}

func (s state) desc(o op) any {
	var pre []string
	for _, p := range s.pre {
		pre = append(pre, p.name)
	}
	return map[string]any{"canvas": fmt.Sprintf("%dx%d", s.W, s.H), "boundingBox": fmt.Sprint(s.bb), "inverted": s.inv, "fill": s.init, "before": pre, "operation": o.name}
}

func fill(n int, k byte) []byte {
	b := make([]byte, n)
	for i := range b {
		switch k {
		case 1, 3:
			b[i] = 0xff
		case 2:
			b[i] = byte(0xa5 + i*0x31)
		}
	}
	return b
}

// step compares one executed operation with the model.
func step(s *state, before []byte, m *gfx.MonoImg, o op, stride int) string {
	after := m.GetImgSlice()
	if len(after) != len(before) {
		return fmt.Sprintf("size: buffer of %d bytes became %d bytes", len(before), len(after))
	}
	if m.Width != s.W || m.Height != s.H {
		return "size: canvas changed its dimensions"
	}
	for i := range after {
		d := after[i] ^ before[i]
		if d == 0 && !o.exact {
			continue
		}
		y := i / max(stride, 1)
		for b := 0; b < 8; b++ {
			x := i%max(stride, 1)*8 + b
			bit := byte(0x80) >> b
			chg := d&bit != 0
			if x >= s.W || y >= s.H {
				if chg {
					return fmt.Sprintf("padding: padding bit %d of row %d changed", x, y)
				}
				continue
			}
			rx, ry := x-s.bb.x, y-s.bb.y
			clip := s.bb.has(x, y)
			foot := o.foot(rx, ry)
			switch {
			case chg && !clip:
				return fmt.Sprintf("clip: pixel %d,%d outside the clip rectangle %v of the %dx%d canvas changed", x, y, s.bb, s.W, s.H)
			case chg && !foot:
				return fmt.Sprintf("footprint: pixel %d,%d changed, which is not part of the operation", x, y)
			case o.exact && clip && foot && (after[i]&bit != 0) != (o.color != s.inv):
				return fmt.Sprintf("missing: pixel %d,%d is part of the operation and was not drawn in its colour", x, y)
			}
		}
	}
	return ""
}

func setup(s *state) (*gfx.MonoImg, string) {
	m := &gfx.MonoImg{}
	stride := (s.W + 7) / 8
	n := stride * s.H
	if s.init == 3 {
		n += 2*stride + 5
	}
	if s.init == 0 {
		m.NewImage(s.W, s.H)
	} else if err := m.CreateFromBytes(s.W, s.H, fill(n, s.init)); err != nil {
		return nil, "create: " + err.Error()
	}
	if len(m.GetImgSlice()) != n {
		return nil, fmt.Sprintf("size: %d bytes for a %dx%d canvas", len(m.GetImgSlice()), s.W, s.H)
	}
	m.SetBoundingBox(s.bb.x, s.bb.y, s.bb.w, s.bb.h)
	m.InvertPixels(s.inv)
	return m, ""
}

func run(s state, o op) bool {
	return c.Run(func() any { return s.desc(o) }, func() string {
		m, e := setup(&s)
		if e != "" {
			return e
		}
		for _, p := range s.pre {
			p.do(m)
		}
		before := append([]byte(nil), m.GetImgSlice()...)
		o.do(m)
		c.Trans(1)
		c.Trace(1)
		r := step(&s, before, m, o, (s.W+7)/8)
		if r == "" && c.StateBytes(append([]byte(fmt.Sprintf("%d %d %v %v ", s.W, s.H, s.bb, s.inv)), m.GetImgSlice()...)) && c.WantSample("op") && o.exact && s.W > 8 {
			c.Sample("op", s.desc(o))
		}
		return r
	})
}

// --- operations ----------------------------------------------------------------

func opPixel(x, y int, col bool) op {
	return op{fmt.Sprintf("DrawPixel(%d,%d,%v)", x, y, col), func(m *gfx.MonoImg) { m.DrawPixel(x, y, col) },
		box{x, y, 1, 1}.has, true, col}
}
func opH(x, y, w int, col bool) op {
	return op{fmt.Sprintf("DrawFastHLine(%d,%d,%d,%v)", x, y, w, col), func(m *gfx.MonoImg) { m.DrawFastHLine(x, y, w, col) },
		box{x, y, w, 1}.has, true, col}
}
func opV(x, y, h int, col bool) op {
	return op{fmt.Sprintf("DrawFastVLine(%d,%d,%d,%v)", x, y, h, col), func(m *gfx.MonoImg) { m.DrawFastVLine(x, y, h, col) },
		box{x, y, 1, h}.has, true, col}
}
func opRect(x, y, w, h int, col bool) op {
	return op{fmt.Sprintf("FillRect(%d,%d,%d,%d,%v)", x, y, w, h, col), func(m *gfx.MonoImg) { m.FillRect(x, y, w, h, col) },
		box{x, y, w, h}.has, true, col}
}

// arc: quadrants of bits 1 left-up, 2 right-up, 4 right-down, 8 left-down.
func arc(x0, y0, r, q int) func(x, y int) bool {
	return func(x, y int) bool {
		dx, dy := x-x0, y-y0
		if r < 0 || max(dx, -dx) > r || max(dy, -dy) > r {
			return false
		}
		d := math.Hypot(float64(dx), float64(dy))
		if math.Abs(d-float64(r)) > 1.5 {
			return false
		}
		return q&1 != 0 && dx <= 0 && dy <= 0 || q&2 != 0 && dx >= 0 && dy <= 0 ||
			q&4 != 0 && dx >= 0 && dy >= 0 || q&8 != 0 && dx <= 0 && dy >= 0
	}
}

func opArc(x0, y0, r, q int, col bool) op {
	return op{fmt.Sprintf("DrawCircleHelper(%d,%d,%d,%d,%v)", x0, y0, r, q, col), func(m *gfx.MonoImg) { m.DrawCircleHelper(x0, y0, r, q, col) },
		arc(x0, y0, r, q), false, col}
}

// half disc: bit 1 right side, bit 2 left side, stretched down by delta.
func disc(x0, y0, r, q, delta int) func(x, y int) bool {
	return func(x, y int) bool {
		dx := x - x0
		if r < 0 || q&1 == 0 && dx > 0 || q&2 == 0 && dx < 0 || max(dx, -dx) > r {
			return false
		}
		return y >= y0-r && (delta > math.MaxInt/2 || y <= y0+r+delta)
	}
}

func opDisc(x0, y0, r, q, delta int, col bool) op {
	return op{fmt.Sprintf("FillCircleHelper(%d,%d,%d,%d,%d,%v)", x0, y0, r, q, delta, col), func(m *gfx.MonoImg) { m.FillCircleHelper(x0, y0, r, q, delta, col) },
		disc(x0, y0, r, q, delta), false, col}
}

func opRound(x, y, w, h, r int, col bool) op {
	f := func(px, py int) bool {
		// never outside the rectangle, and without a radius only its outline
		return box{x, y, w, h}.has(px, py) && (r > 0 || px == x || px == x+w-1 || py == y || py == y+h-1)
	}
	return op{fmt.Sprintf("DrawRoundRect(%d,%d,%d,%d,%d,%v)", x, y, w, h, r, col), func(m *gfx.MonoImg) { m.DrawRoundRect(x, y, w, h, r, col) }, f, false, col}
}

func opFillRound(x, y, w, h, r int, col bool) op {
	f := func(px, py int) bool {
		return box{x, y, w, h}.has(px, py)
	}
	return op{fmt.Sprintf("FillRoundRect(%d,%d,%d,%d,%d,%v)", x, y, w, h, r, col), func(m *gfx.MonoImg) { m.FillRoundRect(x, y, w, h, r, col) }, f, false, col}
}

func opBitmap(x, y int, data []byte, w, h int, col, inv, all bool) op {
	bw := w / 8
	if w%8 > 0 {
		bw++
	}
	f := func(px, py int) bool {
		if !(box{x, y, w, h}.has(px, py)) {
			return false
		}
		i := (py-y)*bw + (px-x)/8
		if i < 0 || i >= len(data) {
			return false
		}
		return all || (data[i]&(0x80>>uint((px-x)%8)) != 0) != inv
	}
	return op{fmt.Sprintf("DrawBitmap(%d,%d,%x,%d,%d,%v,%v,%v)", x, y, data, w, h, col, inv, all), func(m *gfx.MonoImg) { m.DrawBitmap(x, y, data, w, h, col, inv, all) }, f, false, col}
}

var cell = [][2]int{{6, 8}, {8, 8}, {6, 6}} // font cells
func opChar(x, y int, ch byte, font int, prop bool, col, bg bool, sh, sv int) op {
	f := func(px, py int) bool {
		w, h := cell[font][0], cell[font][1]
		if font == 1 && prop {
			w++ // a blank column after a glyph of the full width
		}
		mul := func(a, b int) int {
			if b > math.MaxInt/16 {
				return math.MaxInt
			}
			return a * b
		}
		return box{x, y, mul(w, sh), mul(h, sv)}.has(px, py)
	}
	return op{fmt.Sprintf("font(%d,%v) DrawChar(%d,%d,%d,%v,%v,%d,%d)", font, prop, x, y, ch, col, bg, sh, sv),
		func(m *gfx.MonoImg) { m.SetFont(font, prop); m.DrawChar(x, y, ch, col, bg, sh, sv) }, f, false, col}
}

func opText(s string, x, y int, font int, prop, wrap, col bool, sh, sv int, sp byte) op {
	f := func(px, py int) bool { return (px >= x || px >= 0) && py >= y }
	if !wrap {
		n := false
		for _, r := range s {
			n = n || byte(r) == 10
		}
		if !n {
			f = func(px, py int) bool { return px >= x && py >= y }
		}
	}
	return op{fmt.Sprintf("font(%d,%v) cursor(%d,%d) wrap %v size %d,%d spacing %d color %v RenderText(%q)", font, prop, x, y, wrap, sh, sv, sp, col, s),
		func(m *gfx.MonoImg) {
			m.SetFont(font, prop)
			m.SetTextWrap(wrap)
			m.SetTextColor(col)
			m.SetTextSize(sh, sv)
			m.SetCharSpacingCompensation(sp)
			m.SetCursor(x, y)
			m.RenderText(s)
		}, f, false, col}
}

// --- enumerations ----------------------------------------------------------------

type canvas struct{ W, H int }

func canvases() []canvas {
	var out []canvas
	for _, w := range vk.Pick(c, []int{0, 1, 7, 8, 9, 19}, []int{0, 1, 2, 3, 5, 7, 8, 9, 11, 13, 15, 16, 17, 23, 24, 25, 33}) {
		for _, h := range vk.Pick(c, []int{0, 1, 3}, []int{0, 1, 2, 3, 5, 8}) {
			out = append(out, canvas{w, h})
		}
	}
	return out
}

const big = 1 << 40

func boxes(W, H int) (uniq []box) {
	out := []box{{0, 0, W, H}}
	defer func() {
		seen := map[box]bool{}
		for _, b := range out {
			if !seen[b] {
				seen[b] = true
				uniq = append(uniq, b)
			}
		}
	}()
	for _, x := range []int{-9, -3, 0, 1, 5, 8, W} {
		for _, w := range []int{-1, 0, 1, 4, 9, W, big} {
			out = append(out, box{x, 0, w, H}, box{x, 1, w, 2}, box{x, -1, w, H + 5})
		}
	}
	for _, y := range []int{-2, 1, H} {
		for _, h := range []int{-1, 0, 1, H, math.MaxInt} {
			out = append(out, box{0, y, W, h}, box{3, y, W, h})
		}
	}
	return nil
}

// coords around everything that could matter on an axis of length n with clip start o and length l.
func coords(n, o, l int) []int {
	set := map[int]bool{}
	for _, b := range []int{0, n, -o, n - o, l, -8, -16, 8, 16} {
		for d := -1; d <= 1; d++ {
			set[b+d] = true
		}
	}
	for _, b := range []int{math.MinInt, math.MinInt + 1, math.MaxInt, math.MaxInt - 1, -big, big, math.MinInt32, math.MaxInt32} {
		set[b] = true
	}
	var out []int
	for v := range set {
		out = append(out, v)
	}
	sort.Ints(out)
	return out
}

func states(w, h int, f func(s state)) {
	for _, bb := range boxes(w, h) {
		if bb.w > w || bb.h > h || bb.x < 0 {
			f(state{W: w, H: h, bb: bb, inv: true, init: 3})
		}
		for k := 0; k < 4; k++ {
			f(state{W: w, H: h, bb: bb, inv: k&1 != 0, init: byte(k >> 1)})
		}
	}
}

func over(f func(cv canvas)) {
	cs := canvases()
	c.Parallel(len(cs), func(i int) { f(cs[len(cs)-1-i]) })
}

func pixels() {
	over(func(cv canvas) {
		states(cv.W, cv.H, func(s state) {
			if !c.Thorough() && s.inv == (s.init == 0) {
				return
			}
			for _, y := range coords(cv.H, s.bb.y, s.bb.h) {
				for x := -18; x < cv.W+18; x++ {
					run(s, opPixel(x, y, s.inv != (s.init == 0)))
				}
				for _, x := range coords(cv.W, s.bb.x, s.bb.w) {
					run(s, opPixel(x, y, false))
					run(s, opPixel(x, y, true))
				}
			}
		})
	})
}

var lens = []int{-1, 0, 1, 2, 3, 9, 20, math.MaxInt32, math.MaxInt, math.MinInt}

func lines() {
	over(func(cv canvas) {
		if !c.Thorough() && (cv.W == 1 || cv.W == 8 || cv.W == 16) {
			return
		}
		states(cv.W, cv.H, func(s state) {
			if !c.Thorough() && s.inv == (s.init == 0) {
				return
			}
			for _, col := range []bool{false, true} {
				for _, n := range lens {
					for _, a := range []int{-17, -8, -1, 0, 1, 4, 7, 8, 12, cv.W - 1, cv.W, big, -big, math.MinInt, math.MaxInt} {
						for _, b := range []int{-1, 0, 1, cv.H - 1, cv.H} {
							run(s, opH(a, b, n, col))
						}
						for _, b := range []int{-8, -1, 0, 2, 5, cv.W - 1, cv.W} {
							run(s, opV(b, a, n, col))
						}
					}
				}
			}
		})
	})
}

func rects() {
	cs := []canvas{{1, 1}, {7, 5}, {9, 3}, {17, 5}, {24, 4}, {25, 9}}
	c.Parallel(len(cs), func(i int) {
		cv := cs[i]
		states(cv.W, cv.H, func(s state) {
			if s.inv == (s.init == 0) && !c.Thorough() {
				return
			}
			for _, x := range []int{-9, -8, -1, 0, 3, 8, cv.W - 1, -big, math.MinInt} {
				for _, y := range []int{-2, 0, 1, cv.H - 1, -big} {
					for _, w := range []int{-1, 0, 1, 5, 8, 9, 17, big, math.MaxInt} {
						for _, h := range []int{-1, 0, 1, 2, 4, big, math.MaxInt} {
							run(s, opRect(x, y, w, h, !s.inv))
						}
					}
				}
			}
		})
	})
}

func arcs() {
	cs := []canvas{{9, 7}, {20, 16}, {33, 24}}
	type job struct {
		cv canvas
		bb box
	}
	var jobs []job
	for _, cv := range cs {
		for _, bb := range []box{{0, 0, cv.W, cv.H}, {3, 2, cv.W - 6, cv.H - 4}, {-4, -3, cv.W, cv.H}, {2, 1, big, big}, {cv.W, 0, 4, 4}} {
			jobs = append(jobs, job{cv, bb})
		}
	}
	vals := []int{-9, -8, -1, 0, 2, 7, 12}
	c.Parallel(len(jobs)*len(vals), func(i int) {
		j, x := jobs[i/len(vals)], vals[i%len(vals)]
		for k := 0; k < 4; k++ {
			s := state{W: j.cv.W, H: j.cv.H, bb: j.bb, inv: k&1 != 0, init: byte(k >> 1)}
			for _, y := range []int{-7, -1, 0, 3, 10} {
				for _, r := range []int{-2, 0, 1, 2, 3, 5, 8, 13, 40, 100000} {
					for q := 0; q < 16; q++ {
						if r < 1000 || q == 15 {
							run(s, opArc(x, y, r, q, k&2 == 0))
						}
						if q < 4 && r < 1000 {
							for _, d := range []int{-9, -1, 0, 3, 30, big} {
								run(s, opDisc(x, y, r, q, d, k&2 == 0))
							}
						}
					}
					if r > 1000 {
						continue
					}
					for _, w := range []int{-3, 0, 1, 2, 3, 5, 10, 17, 33, 60} {
						for _, h := range []int{-3, 0, 1, 3, 8, 11, 30} {
							run(s, opRound(x, y, w, h, r, k&2 == 0))
							run(s, opFillRound(x, y, w, h, r, k&2 == 0))
						}
					}
				}
			}
		}
	})
}

func bitmaps() {
	data := [][]byte{nil, {}, {0xff}, {0xa5, 0x3c}, {0x80, 0x01, 0xff, 0x00, 0x55, 0xaa, 0x0f, 0xf0, 0x33}, fill(64, 2)}
	cs := []canvas{{7, 5}, {16, 6}, {19, 9}}
	c.Parallel(len(cs)*len(data), func(i int) {
		cv, d := cs[i/len(data)], data[i%len(data)]
		for _, bb := range []box{{0, 0, cv.W, cv.H}, {2, 1, 9, 3}, {-3, -1, 12, 4}, {5, 5, big, big}} {
			for k := 0; k < 32; k++ {
				s := state{W: cv.W, H: cv.H, bb: bb, inv: k&1 != 0, init: byte(k>>1) & 1}
				for _, x := range []int{-9, -8, -1, 0, 3, 15, -big, math.MaxInt} {
					for _, y := range []int{-2, 0, 1, 8, big} {
						for _, w := range []int{-1, 0, 1, 7, 8, 9, 16, 100} {
							for _, h := range []int{-1, 0, 1, 3, 8, 100} {
								run(s, opBitmap(x, y, d, w, h, k&4 != 0, k&8 != 0, k&16 != 0))
							}
						}
					}
				}
			}
		}
	})
}

func chars() {
	cs := []canvas{{8, 8}, {21, 17}, {40, 20}}
	c.Parallel(len(cs)*256, func(i int) {
		cv, ch := cs[i/256], byte(i%256)
		for _, bb := range []box{{0, 0, cv.W, cv.H}, {5, 3, 9, 9}, {-3, -2, 12, 9}, {0, 0, 0, 0}, {4, 2, big, big}, {2, 2, -5, -5}} {
			for k := 0; k < 8; k++ {
				s := state{W: cv.W, H: cv.H, bb: bb, inv: k&1 != 0, init: byte(k>>1) & 1}
				if !c.Thorough() && (k == 1 || k == 2 || k == 5 || k == 6) {
					continue // the inversion fills, the inversion-free clears: everything would be drawn over its own colour
				}
				for f := 0; f < 6; f++ {
					for _, x := range []int{-9, -8, -3, 0, 4, 17, cv.W} {
						for _, y := range []int{-9, -3, 0, 5, cv.H} {
							sizes := [][2]int{{1, 1}, {2, 3}, {1, 2}}
							if ch%16 == 1 || c.Thorough() {
								sizes = append(sizes, [][2]int{{3, 1}, {0, 1}, {-1, 2}, {1, -1}, {50, 50}}...)
							} else if x == -9 || y == -9 || x == 17 {
								sizes = sizes[:2]
							}
							for _, z := range sizes {
								run(s, opChar(x, y, ch, f%3, f > 2, k&4 != 0, k&1 != 0, z[0], z[1]))
							}
						}
					}
				}
			}
		}
	})
}

func strs() {
	list := []string{"", "A", "Hi", "W i", "Hello World!", "\n", "A\nB", "\r\n", "\x00\x1f\x7f\x80", "æøå", "日本", "\xff\xfe", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "(gj)|_^"}
	cs := []canvas{{0, 0}, {5, 4}, {33, 20}, {64, 32}}
	c.Parallel(len(cs)*len(list), func(i int) {
		cv, t := cs[i/len(list)], list[i%len(list)]
		for _, bb := range []box{{0, 0, cv.W, cv.H}, {5, 3, 19, 12}, {-3, -2, 12, 9}, {4, 2, big, big}, {1, 1, 0, 0}} {
			for k := 0; k < 4; k++ {
				s := state{W: cv.W, H: cv.H, bb: bb, inv: k&1 != 0, init: byte(k>>1) & 1}
				if !c.Thorough() && (k == 1 || k == 2) {
					continue
				}
				for f := 0; f < 12; f++ {
					for _, x := range []int{-40, -8, -1, 0, 4, 30, math.MaxInt - 3, math.MinInt} {
						for _, y := range []int{-9, 0, 5, 25, math.MinInt, math.MaxInt} {
							for _, z := range [][2]int{{1, 1}, {2, 1}, {1, 3}, {0, 0}, {-1, -1}, {7, 7}} {
								for _, sp := range []byte{0, 2, 255} {
									if x > 1000 && z[0] > 1 || x < -1000 && sp > 0 {
										continue
									}
									run(s, opText(t, x, y, f%3, f/3%2 == 0, f > 5, k&2 == 0, z[0], z[1], sp))
								}
							}
						}
					}
				}
			}
		}
	})
}

// huge: arguments far outside; nothing may panic, hang or wrap.
func huge() {
	v := []int{math.MinInt, -big, math.MinInt32, -1, 0, 5, math.MaxInt32, big, math.MaxInt}
	c.Parallel(len(v)*len(v), func(i int) {
		x, y := v[i/len(v)], v[i%len(v)]
		for _, cv := range []canvas{{0, 0}, {9, 5}} {
			for _, bb := range []box{{0, 0, cv.W, cv.H}, {3, 1, big, big}, {-big, -big, 2 * big, 2 * big}, {big, big, 5, 5}} {
				s := state{W: cv.W, H: cv.H, bb: bb}
				for _, w := range v {
					for _, h := range v {
						run(s, opRect(x, y, w, h, true))
						if w < 1000 && w > -1000 && h < 1000 || h < 1000 && h > -1000 {
							run(s, opBitmap(x, y, []byte{0xff, 0xff}, w, h, true, false, true))
						}
					}
					run(s, opH(x, y, w, true))
					run(s, opV(x, y, w, true))
					for _, h := range []int{1, 5, math.MaxInt32, big} {
						run(s, opChar(x, y, 'A', 0, true, true, false, max(w, 1), h))
					}
				}
				run(s, opPixel(x, y, true))
			}
		}
	})
}

// large: canvases and coordinates which do not fit into 8 or 16 bits.
func large() {
	cs := []canvas{{300, 70}, {257, 41}, {1030, 20}, {66000, 2}, {3, 66000}, {40, 1030}}
	if c.Thorough() {
		cs = append(cs, canvas{520, 300}, canvas{2050, 600})
	}
	// values around the powers of two and the ends of the axis
	at := func(n int) (out []int) {
		seen := map[int]bool{}
		for _, v := range []int{0, 128, 256, 512, 1024, 32768, 65536, n, n / 2, -256, -65536} {
			for d := -1; d <= 1; d++ {
				if p := v + d; !seen[p] && p <= n+2 && p >= -n-2 {
					seen[p] = true
					out = append(out, p)
				}
			}
		}
		sort.Ints(out)
		return
	}
	type job struct {
		cv canvas
		bb box
		k  int
	}
	var jobs []job
	for _, cv := range cs {
		for _, bb := range []box{{0, 0, cv.W, cv.H}, {cv.W / 3, cv.H / 3, cv.W / 2, cv.H / 2}, {-20, -10, cv.W, cv.H}, {1, 1, big, big}} {
			for k := 0; k < 4; k++ {
				jobs = append(jobs, job{cv, bb, k})
			}
		}
	}
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		s := state{W: j.cv.W, H: j.cv.H, bb: j.bb, inv: j.k&1 != 0, init: byte(j.k>>1) * 3}
		col := (j.k == 0 || j.k == 3)
		xs, ys := at(j.cv.W), at(j.cv.H)
		few := func(l []int, n int) (out []int) {
			for k, v := range l {
				if (k+i)%n == 0 {
					out = append(out, v)
				}
			}
			return
		}
		if j.cv.W*j.cv.H > 100000 || !c.Thorough() {
			xs, ys = few(xs, 2), few(ys, 2)
		}
		for xi, x := range xs {
			for yi, y := range ys {
				run(s, opPixel(x, y, col))
				n := xs[(xi*7+yi+3)%len(xs)]
				m := ys[(yi*5+xi+2)%len(ys)]
				run(s, opH(x, y, n, col))
				run(s, opV(x, y, m, col))
				run(s, opRect(x, y, n, m, col))
				run(s, opRect(x, y, j.cv.W, j.cv.H, col))
				if (xi+yi)%3 == 0 {
					run(s, opRound(x, y, n, m, 9, col))
					run(s, opFillRound(x, y, n, m, 130, col))
					run(s, opArc(x, y, 127+n%40, 15, col))
					run(s, opDisc(x, y, 127+n%40, 3, 20, col))
					w := max(n, 9)
					run(s, opBitmap(x, y, fill((w+7)/8*max(m, 3), 2), w, max(m, 3), col, false, j.k > 1))
					run(s, opChar(x, y, 'M', 0, true, col, !col, 60, 50))
					run(s, opText("A text of some length, the words of which are wider than it", x, y, 1, yi%2 == 0, xi%2 == 0, col, 3, 2, 1))
				}
			}
		}
	})
}

// --- sequences ---------------------------------------------------------------------

// setting operations change the model state too
type act struct {
	name string
	o    *op
	set  func(s *state, m *gfx.MonoImg)
}

func acts() []act {
	var out []act
	d := func(o op) { out = append(out, act{o.name, &o, nil}) }
	for _, col := range []bool{true, false} {
		d(opPixel(0, 0, col))
		d(opPixel(-8, 1, col))
		d(opRect(-1, -1, 4, 3, col))
		d(opH(2, 1, 9, col))
		d(opV(8, -1, 9, col))
		d(opRound(1, 0, 7, 5, 2, col))
		d(opFillRound(2, 1, 6, 4, 1, col))
		d(opText("Ij", 1, -2, 0, true, true, col, 1, 1, 0))
		d(opText("8", 3, 0, 2, false, false, col, 2, 1, 1))
		d(opBitmap(1, 1, []byte{0xf0, 0x0f, 0xaa}, 8, 3, col, false, true))
		d(opArc(4, 2, 3, 15, col))
	}
	b := func(x, y, w, h int) {
		out = append(out, act{fmt.Sprintf("SetBoundingBox(%d,%d,%d,%d)", x, y, w, h), nil, func(s *state, m *gfx.MonoImg) {
			m.SetBoundingBox(x, y, w, h)
			s.bb = box{x, y, w, h}
		}})
	}
	b(0, 0, 11, 5)
	b(2, 1, 6, 3)
	b(-2, -1, 8, 5)
	b(8, 0, 40, 40)
	b(0, 0, 0, 0)
	out = append(out, act{"InvertPixels(true)", nil, func(s *state, m *gfx.MonoImg) { m.InvertPixels(true); s.inv = true }},
		act{"InvertPixels(false)", nil, func(s *state, m *gfx.MonoImg) { m.InvertPixels(false); s.inv = false }})
	return out
}

func sequences() {
	al := acts()
	depth := vk.Pick(c, 4, 5)
	n := len(al)
	tot := 1
	for i := 0; i < depth; i++ {
		tot *= n
	}
	for _, cv := range []canvas{{11, 5}, {8, 4}} {
		for _, init := range []byte{0, 2} {
			c.Parallel(tot, func(i int) {
				seq := make([]act, depth)
				for k, v := 0, i; k < depth; k, v = k+1, v/n {
					seq[depth-1-k] = al[v%n]
				}
				s := state{W: cv.W, H: cv.H, bb: box{0, 0, cv.W, cv.H}, init: init}
				c.Run(func() any {
					var l []string
					for _, a := range seq {
						l = append(l, a.name)
					}
					return map[string]any{"canvas": cv, "fill": init, "sequence": l}
				}, func() string {
					s := s
					m, e := setup(&s)
					if e != "" {
						return e
					}
					var st []byte
					for _, a := range seq {
						if a.set != nil {
							a.set(&s, m)
						} else {
							before := append([]byte(nil), m.GetImgSlice()...)
							a.o.do(m)
							if r := step(&s, before, m, *a.o, (s.W+7)/8); r != "" {
								return r
							}
						}
						c.Trans(1)
						st = append(append(st[:0], byte(s.W), byte(s.bb.x), byte(s.bb.y), byte(s.bb.w), byte(s.bb.h)), m.GetImgSlice()...)
						if s.inv {
							st = append(st, 1)
						}
						c.StateBytes(st)
					}
					c.Trace(1)
					return ""
				})
			})
		}
	}
}

// several: histories over three canvases, two of one size; a canvas is only
// changed by operations on itself, under its own settings.
func several() {
	al := acts()
	n := len(al) + 1 // the last one replaces the canvas by a new one
	depth := vk.Pick(c, 3, 4)
	tot := 1
	for i := 0; i < depth; i++ {
		tot *= 3 * n
	}
	c.Parallel(2*tot, func(i int) {
		init := byte(i%2) * 2
		type at struct{ who, act int }
		var seq []at
		for k, v := 0, i/2; k < depth; k, v = k+1, v/(3*n) {
			seq = append(seq, at{v % 3, v / 3 % n})
		}
		c.Run(func() any {
			var l []string
			for _, a := range seq {
				s := "replace by a new canvas"
				if a.act < len(al) {
					s = al[a.act].name
				}
				l = append(l, fmt.Sprintf("canvas %d: %s", a.who, s))
			}
			return map[string]any{"canvases": "11x5, 11x5, 8x4", "fill": init, "sequence": l}
		}, func() string {
			ss := []*state{{W: 11, H: 5, bb: box{0, 0, 11, 5}, init: init}, {W: 11, H: 5, bb: box{0, 0, 11, 5}, init: init}, {W: 8, H: 4, bb: box{0, 0, 8, 4}, init: init}}
			ms := make([]*gfx.MonoImg, 3)
			now := make([][]byte, 3)
			for k := range ms {
				m, e := setup(ss[k])
				if e != "" {
					return e
				}
				ms[k], now[k] = m, append([]byte(nil), m.GetImgSlice()...)
			}
			for _, a := range seq {
				m, s := ms[a.who], ss[a.who]
				c.Trans(1)
				switch {
				case a.act == len(al):
					s.bb, s.inv = box{0, 0, s.W, s.H}, false
					x, e := setup(s)
					if e != "" {
						return e
					}
					ms[a.who] = x
				case al[a.act].set != nil:
					al[a.act].set(s, m)
				default:
					o := *al[a.act].o
					o.do(m)
					if r := step(s, now[a.who], m, o, (s.W+7)/8); r != "" {
						return r
					}
				}
				now[a.who] = append(now[a.who][:0], ms[a.who].GetImgSlice()...)
				for k := range ms {
					if k != a.who && !bytes.Equal(now[k], ms[k].GetImgSlice()) {
						return fmt.Sprintf("other: an operation on canvas %d changed canvas %d", a.who, k)
					}
				}
			}
			c.Trace(1)
			return ""
		})
	})
}

// tiny: every content of a 3x2 and a 9x1 canvas (padding clear or set) x every
// clip rectangle x inversion, under every pixel, line and rectangle operation.
func tiny() {
	for _, cv := range []canvas{{3, 2}, {9, 1}} {
		var ops []op
		for _, col := range []bool{false, true} {
			for x := -9; x <= cv.W+8; x++ {
				for y := -2; y <= cv.H+1; y++ {
					ops = append(ops, opPixel(x, y, col))
				}
			}
			for x := -2; x <= cv.W; x++ {
				for y := -1; y <= cv.H; y++ {
					for w := 0; w <= cv.W+1; w += 2 {
						for h := 0; h <= cv.H+1; h++ {
							ops = append(ops, opRect(x, y, w, h, col))
						}
					}
				}
			}
		}
		var bbs []box
		for x := -2; x <= cv.W; x++ {
			for w := 0; w <= cv.W+1; w += 1 {
				if cv.W > 4 && (w%4 != 1 || x&1 != 0 || !c.Thorough() && x != -1 && x != 1) {
					continue
				}
				for y := -1; y <= cv.H; y++ {
					for h := 0; h <= cv.H+1; h++ {
						bbs = append(bbs, box{x, y, w, h})
					}
				}
			}
		}
		// contents: every pattern of the visible pixels, with clear and with set padding
		n := 1 << (cv.W*cv.H + 1)
		c.Parallel(n, func(i int) {
			v, pad := i>>1, byte(i&1)*0xff
			st := []byte{pad, pad}
			for k := 0; k < cv.W*cv.H; k++ {
				p := k/cv.W*8*((cv.W+7)/8) + k%cv.W
				st[p/8] &^= 0x80 >> (p % 8)
				if v>>k&1 != 0 {
					st[p/8] |= 0x80 >> (p % 8)
				}
			}
			m := &gfx.MonoImg{}
			for _, bb := range bbs {
				for k := 0; k < 2; k++ {
					s := state{W: cv.W, H: cv.H, bb: bb, inv: k == 1}
					for _, o := range ops {
						c.Run(func() any {
							return map[string]any{"state": s.desc(o), "buffer": fmt.Sprintf("%x", st)}
						}, func() string {
							buf := []byte{st[0], st[1]}
							if err := m.CreateFromBytes(cv.W, cv.H, buf); err != nil {
								return "create: " + err.Error()
							}
							m.SetBoundingBox(bb.x, bb.y, bb.w, bb.h)
							m.InvertPixels(s.inv)
							o.do(m)
							return step(&s, st, m, o, (cv.W+7)/8)
						})
					}
					c.Trans(len(ops))
					c.Trace(len(ops))
					c.StateBytes([]byte(fmt.Sprint(cv, st, bb, k)))
				}
			}
		})
	}
}

// C20: text metrics. Every string of one and two bytes, strings of three bytes
// over an alphabet of extreme glyphs and longer ones are rendered in every
// font, width mode, spacing and size; the pixels are compared with the reported
// box, with the translated rendering of the same text elsewhere, and with the
// enlarged size-1 rendering.
package main

import (
	"fmt"
	"time"

	gfx "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"

	"verif.local/harness/vk"
)

var c *vk.Check

func main() { vk.Main("C20", body) }

func body(k *vk.Check) {
	c = k
	c.Assume("Strings do not contain line feeds (nor characters that the 8-bit rendering truncates to one): a line feed is a wrap.",
		"Text sizes are positive (a vertical size of 0 means: as the horizontal one).",
		"Where the right edge cuts a text, pixels may be missing (glyphs that do not fit are dropped) but none may be elsewhere; at the other edges the visible part is asserted exactly.")
	c.Limit(20 * time.Second)
	c.Phase("every single byte: metrics, scale, translation", singles)
	c.Phase("every pair of bytes", pairs)
	c.Phase("triples of extreme glyphs", triples)
	c.Phase("longer strings and other characters", longer)
	c.Phase("cut by the edges of canvas and clip", edges)
	c.Phase("very long strings and far positions", far)
	c.Phase("one image used for several texts", reuse)
}

type cfg struct {
	font   int
	prop   bool
	h, v   int
	sp     byte
	x, y   int
	W, H   int
	bx, by int // clip offset; 0,0: whole canvas
	clear  bool
	inv    bool
	wrap   bool
}

type pt struct{ x, y int }

// render returns the changed pixels relative to the clip rectangle, and the
// reported metrics.
func render(s string, f cfg) (ps []pt, w int, lh int) {
	m := &gfx.MonoImg{}
	stride := (f.W + 7) / 8
	if f.clear != f.inv {
		b := make([]byte, stride*f.H)
		for i := range b {
			b[i] = 0xff
		}
		m.CreateFromBytes(f.W, f.H, b)
	} else {
		m.NewImage(f.W, f.H)
	}
	if f.bx != 0 || f.by != 0 {
		m.SetBoundingBox(f.bx, f.by, f.W-f.bx, f.H-f.by)
	}
	m.InvertPixels(f.inv)
	m.SetFont(f.font, f.prop)
	m.SetTextColor(!f.clear)
	m.SetTextSize(f.h, f.v)
	m.SetCharSpacingCompensation(f.sp)
	m.SetTextWrap(f.wrap)
	m.SetCursor(f.x, f.y)
	w, lh = m.StrWidth(s), int(m.LineHeight())
	m.RenderText(s)
	mask := byte(0)
	if f.clear != f.inv {
		mask = 0xff
	}
	b := m.GetImgSlice()
	for i, v := range b {
		if v ^= mask; v != 0 {
			for k := 0; k < 8; k++ {
				if v>>(7-k)&1 != 0 {
					ps = append(ps, pt{i%stride*8 + k - f.bx, i/stride - f.by})
				}
			}
		}
	}
	return
}

func (f cfg) vsize() int {
	if f.v == 0 {
		return max(f.h, 1)
	}
	return f.v
}

func desc(s string, f cfg) func() any {
	return func() any { return map[string]any{"text": fmt.Sprintf("%q", s), "config": fmt.Sprintf("%+v", f)} }
}

// room sizes the canvas so that nothing is cut.
func room(s string, f cfg) cfg {
	n := len([]rune(s))
	f.W = f.bx + max(f.x, 0) + n*(9*f.h+int(f.sp)) + 20
	f.H = f.by + max(f.y, 0) + 8*f.vsize() + 5
	return f
}

// inBox checks the reported box.
func inBox(s string, f cfg, ps []pt, w, lh int) string {
	for _, p := range ps {
		if p.x < f.x || p.x >= f.x+w+max(f.h, 1) || p.y < f.y || p.y >= f.y+lh {
			return fmt.Sprintf("box: pixel %d,%d relative to the cursor is outside of width %d + %d and height %d", p.x-f.x, p.y-f.y, w, f.h, lh)
		}
	}
	return ""
}

func set(ps []pt, dx, dy int) map[pt]bool {
	m := map[pt]bool{}
	for _, p := range ps {
		m[pt{p.x + dx, p.y + dy}] = true
	}
	return m
}

// diff compares two sorted-by-construction pixel lists after moving b by d.
func diff(a, b []pt, dx, dy int) string {
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i].x != b[i].x+dx || a[i].y != b[i].y+dy {
				same = false
				break
			}
		}
		if same {
			return ""
		}
	}
	sa, sb := set(a, 0, 0), set(b, dx, dy)
	for p := range sb {
		if !sa[p] {
			return fmt.Sprintf("pixel %d,%d is missing", p.x, p.y)
		}
	}
	for p := range sa {
		if !sb[p] {
			return fmt.Sprintf("pixel %d,%d is too many", p.x, p.y)
		}
	}
	return ""
}

func enlarge(ps []pt, h, v int) []pt {
	var out []pt
	rows := map[int][]int{}
	maxY := -1
	for _, p := range ps {
		rows[p.y] = append(rows[p.y], p.x)
		maxY = max(maxY, p.y)
	}
	for y := 0; y <= maxY; y++ {
		for j := 0; j < v; j++ {
			for _, x := range rows[y] {
				for i := 0; i < h; i++ {
					out = append(out, pt{x*h + i, y*v + j})
				}
			}
		}
	}
	return out
}

func count(s string, f cfg, ps []pt) {
	c.Trace(1)
	b := make([]byte, 0, 64+len(ps)*2)
	b = append(b, fmt.Sprint(f.W, f.H, " ")...)
	for _, p := range ps {
		b = append(b, byte(p.x), byte(p.x>>8), byte(p.y), byte(p.y>>8))
	}
	c.StateBytes(b)
}

// base is the size-1 rendering at cursor 0,0, checked against its box.
func base(s string, f cfg) []pt {
	f.h, f.v, f.x, f.y, f.bx, f.by = 1, 1, 0, 0, 0, 0
	f = room(s, f)
	var ps []pt
	c.Run(desc(s, f), func() string {
		var w, lh int
		ps, w, lh = render(s, f)
		c.Trans(1)
		count(s, f, ps)
		return inBox(s, f, ps, w, lh)
	})
	return ps
}

// scaled compares size h,v with the enlarged base, translated to the cursor.
func scaled(s string, f cfg, one []pt) {
	f = room(s, f)
	c.Run(desc(s, f), func() string {
		ps, w, lh := render(s, f)
		c.Trans(1)
		c.Trace(1)
		if b := inBox(s, f, ps, w, lh); b != "" {
			return b
		}
		class := "translation"
		if f.h > 1 || f.vsize() > 1 {
			class = "scale"
		}
		d := diff(ps, enlarge(one, f.h, f.vsize()), f.x, f.y)
		if d == "" {
			return ""
		}
		if f.sp > 0 && f.h > 1 && len([]rune(s)) > 1 && diff(ps, unscaled(s, f), f.x, f.y) == "" {
			return "spacing: the extra character spacing is not enlarged with the text"
		}
		return class + ": " + d
	})
}

// unscaled is the recorded finding's rendering: every glyph enlarged, the gaps
// between them not.
func unscaled(s string, f cfg) []pt {
	x := 0
	all := map[pt]bool{}
	for _, r := range s {
		g := f
		g.h, g.v, g.x, g.y, g.sp, g.bx, g.by, g.clear, g.inv = 1, 1, 0, 0, 0, 0, 0, false, false
		g = room(string(r), g)
		one, w, _ := render(string(r), g)
		for _, p := range enlarge(one, f.h, f.vsize()) {
			all[pt{p.x + x, p.y}] = true
		}
		if byte(r) != 13 {
			x += (w+1)*f.h + int(f.sp)
		}
	}
	var out []pt
	for p := range all {
		out = append(out, p)
	}
	return out
}

func modes(f func(cf cfg)) {
	for font := 0; font < 3; font++ {
		for p := 0; p < 2; p++ {
			f(cfg{font: font, prop: p == 1})
		}
	}
}

// chars are the strings that the rendering truncates to each byte value.
func char(b int) string {
	return string(rune(b))
}

func singles() {
	c.Parallel(256, func(i int) {
		if i == 10 {
			return
		}
		s := char(i)
		modes(func(f cfg) {
			for _, sp := range []byte{0, 1, 3, 255} {
				f.sp = sp
				one := base(s, f)
				for h := 1; h <= vk.Pick(c, 5, 9); h++ {
					for v := 0; v <= vk.Pick(c, 5, 9); v++ {
						g := f
						g.h, g.v = h, v
						scaled(s, g, one)
					}
				}
				for _, x := range []int{0, 1, 2, 5, 7, 8, 9, 30, 301} {
					for _, y := range []int{0, 1, 3, 8, 100} {
						for _, b := range [][2]int{{0, 0}, {3, 0}, {8, 5}} {
							for k := 0; k < 4; k++ {
								g := f
								g.h, g.v, g.x, g.y, g.bx, g.by, g.clear, g.inv = 1, 1, x, y, b[0], b[1], k&1 != 0, k&2 != 0
								scaled(s, g, one)
								if k == 0 {
									g.h, g.v = 2, 3
									g.wrap = true
									scaled(s, g, one)
								}
							}
						}
					}
				}
			}
		})
	})
	c.Sample("single", map[string]any{"text": "A", "fonts": 3, "sizes": "1..5 x 0..5"})
}

func pairs() {
	c.Parallel(256, func(i int) {
		for j := 0; j < 256; j++ {
			if i == 10 || j == 10 {
				continue
			}
			s := char(i) + char(j)
			modes(func(f cfg) {
				one := base(s, f)
				g := f
				g.h, g.v, g.x, g.y = 2, 1, 5, 1
				scaled(s, g, one)
				if i%8 == j%8 || c.Thorough() {
					g.h, g.v, g.x, g.wrap, g.clear = 3, 2, 9, true, true
					scaled(s, g, one)
					g = f
					g.sp = 2
					one = base(s, g)
					g.h, g.v, g.y = 1, 4, 3
					scaled(s, g, one)
					g.h, g.v, g.x = 2, 0, 1
					scaled(s, g, one)
				}
			})
		}
	})
}

var extreme = []string{"!", "W", "i", " ", "|", "\x7f", "@", ".", "\r", "\x00", "é", "ÿ", "j", "1"}

func triples() {
	n := len(extreme)
	c.Parallel(n*n*n, func(k int) {
		s := extreme[k/n/n] + extreme[k/n%n] + extreme[k%n]
		modes(func(f cfg) {
			for _, sp := range []byte{0, 1, 3} {
				f.sp = sp
				one := base(s, f)
				for _, z := range [][4]int{{1, 1, 7, 2}, {2, 2, 0, 0}, {3, 1, 4, 0}, {1, 3, 0, 5}, {4, 0, 1, 1}} {
					g := f
					g.h, g.v, g.x, g.y = z[0], z[1], z[2], z[3]
					scaled(s, g, one)
				}
			}
		})
	})
}

var strs = []string{"", "Hello World!", "The quick brown fox jumps over the lazy dog 0123456789", "   ", " lead", "trail ", "æøåÆØÅ", "日本語", "😀😁", "\xff\xfe\x80", "a\rb\rc", "\x00\x01\x02\x1f", "~}|{`_^]", "iiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiii", "WWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWW", "Ġġ", "A|B|C"}

func longer() {
	c.Parallel(len(strs), func(i int) {
		s := strs[i]
		modes(func(f cfg) {
			for _, sp := range []byte{0, 1, 2, 3, 50} {
				f.sp = sp
				one := base(s, f)
				for h := 1; h <= 5; h++ {
					for v := 0; v <= 4; v++ {
						for _, p := range []pt{{0, 0}, {1, 1}, {13, 6}} {
							for k := 0; k < 2; k++ {
								g := f
								g.h, g.v, g.x, g.y, g.wrap, g.inv = h, v, p.x, p.y, k == 1, k == 1
								scaled(s, g, one)
							}
						}
					}
				}
			}
			// font numbers out of range are the default font
			g := f
			if g.font == 0 {
				for _, n := range []int{-1, 3, 7, 99} {
					g.font = n
					g.h, g.v = 1, 1
					scaled(s, g, base(s, f))
				}
			}
		})
	})
}

// edges: the visible part of a text that does not fit.
func edges() {
	list := append([]string{}, strs...)
	for i := 32; i < 256; i++ {
		list = append(list, char(i), "x"+char(i)+"W")
	}
	c.Parallel(len(list), func(i int) {
		s := list[i]
		modes(func(f cfg) {
			for _, sp := range []byte{0, 2} {
				f.sp = sp
				for _, z := range [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 3}} {
					f.h, f.v = z[0], z[1]
					big := room(s, f)
					ref, w, _ := render(s, big)
					if sp > 0 && z[0] > 1 && !c.Thorough() {
						continue
					}
					for x := -25; x <= 30; x += vk.Pick(c, 5, 1) {
						for y := -9; y <= 18; y += vk.Pick(c, 3, 1) {
							for _, b := range [][2]int{{0, 0}, {4, 3}} {
								g := f
								g.x, g.y, g.W, g.H, g.bx, g.by = x, y, 33, 17, b[0], b[1]
								c.Run(desc(s, g), func() string {
									ps, _, _ := render(s, g)
									c.Trans(1)
									c.Trace(1)
									have := set(ps, 0, 0)
									n := 0
									cut := x+w+g.h > g.W-g.bx
									for _, p := range ref {
										q := pt{p.x + x, p.y + y}
										if q.x < 0 || q.y < 0 || q.x >= g.W-g.bx || q.y >= g.H-g.by {
											continue
										}
										if have[q] {
											n++
										} else if !cut {
											return fmt.Sprintf("cut: pixel %d,%d is missing", q.x, q.y)
										}
									}
									if n != len(have) {
										return "cut: a pixel is too many"
									}
									return ""
								})
							}
						}
					}
				}
			}
		})
	})
}

// far: lengths and positions beyond every narrow integer type.
func far() {
	var list []string
	for _, n := range []int{127, 128, 255, 256, 257, 1000, 11000} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(33 + (i*7)%90)
		}
		list = append(list, string(b))
	}
	c.Parallel(len(list)*6, func(i int) {
		s := list[i/6]
		f := cfg{font: i % 6 / 2, prop: i%2 == 1}
		for _, sp := range []byte{0, 3} {
			f.sp = sp
			one := base(s, f)
			for _, z := range [][2]int{{1, 1}, {2, 1}, {1, 3}, {3, 2}} {
				if len(s) > 1000 && z != [2]int{1, 1} {
					continue
				}
				g := f
				g.h, g.v, g.x, g.y = z[0], z[1], 3, 2
				scaled(s, g, one)
			}
		}
	})
	type far struct{ x, y int }
	places := []far{{255, 255}, {256, 256}, {32767, 3}, {32768, 3}, {65535, 0}, {65536, 1}, {70000, 2}, {3, 32768}, {0, 65536}, {1, 70000}}
	c.Parallel(len(places)*6, func(i int) {
		f := cfg{font: i % 6 / 2, prop: i%2 == 1}
		for _, s := range []string{"A", "Wi|\x01", "Hello, World"} {
			one := base(s, f)
			for _, z := range [][2]int{{1, 1}, {2, 3}, {17, 9}, {40, 33}} {
				g := f
				g.h, g.v, g.x, g.y = z[0], z[1], places[i/6].x, places[i/6].y
				if z[0] > 3 && g.x+g.y > 1000 {
					continue
				}
				scaled(s, g, one)
			}
		}
	})
}

// reuse: a text's pixels and metrics do not depend on what the same image
// object was used for before: all sequences of steps of a small alphabet.
func reuse() {
	type step struct {
		s    string
		f    cfg
		mode string // what is asked before the rendering
	}
	var steps []step
	k := 0
	for _, s := range []string{"A", "Wi!", "\x01j"} {
		for font := 0; font < 3; font++ {
			for p := 0; p < 2; p++ {
				for _, z := range [][2]int{{1, 1}, {2, 3}} {
					k++
					steps = append(steps, step{s, cfg{font: font, prop: p == 1, h: z[0], v: z[1], sp: byte(k % 2), x: k % 5, y: k % 3, W: 120, H: 40, clear: k%7 == 3, inv: k%5 == 2, wrap: k%4 == 0}, []string{"width", "height", "none"}[k%3]})
				}
			}
		}
	}
	apply := func(m *gfx.MonoImg, t step) (string, int, int) {
		f := t.f
		// the order of the settings varies with the step
		if f.x%2 == 0 {
			m.SetFont(f.font, f.prop)
			m.SetTextSize(f.h, f.v)
			m.SetCharSpacingCompensation(f.sp)
		} else {
			m.SetCharSpacingCompensation(f.sp)
			m.SetTextSize(f.h, f.v)
			m.SetFont(f.font, f.prop)
		}
		m.InvertPixels(f.inv)
		m.SetTextColor(!f.clear)
		m.SetTextWrap(false)
		m.InvertPixels(f.inv)
		if t.mode == "width" {
			m.StrWidth(t.s + "x")
		} else if t.mode == "height" {
			m.LineHeight()
		}
		w, lh := m.StrWidth(t.s), int(m.LineHeight())
		m.SetCursor(f.x, f.y)
		m.RenderText(t.s)
		return string(m.GetImgSlice()), w, lh
	}
	fresh := func(t step, before []byte) (string, int, int) {
		m := &gfx.MonoImg{}
		m.CreateFromBytes(t.f.W, t.f.H, append([]byte{}, before...))
		return apply(m, t)
	}
	n := len(steps)
	c.Parallel(n*n, func(i int) {
		a, b := steps[i/n], steps[i%n]
		for l := 0; l < vk.Pick(c, 3, n); l++ {
			last := steps[(i+l*11)%n]
			seq := []step{a, b, last}
			c.Run(func() any { return fmt.Sprintf("%+v", seq) }, func() string {
				m := &gfx.MonoImg{}
				m.NewImage(120, 40)
				for k, t := range seq {
					before := append([]byte{}, m.GetImgSlice()...)
					p, w, lh := apply(m, t)
					q, w2, lh2 := fresh(t, before)
					c.Trans(1)
					if w != w2 || lh != lh2 {
						return fmt.Sprintf("reuse: text %d of a sequence on one image has width %d and height %d, alone %d and %d", k, w, lh, w2, lh2)
					}
					if p != q {
						return fmt.Sprintf("reuse: text %d of a sequence on one image has other pixels than alone", k)
					}
				}
				c.Trace(1)
				c.State(string(m.GetImgSlice()))
				return ""
			})
		}
	})
}

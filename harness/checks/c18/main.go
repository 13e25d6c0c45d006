// C18: tile rendering. Text states are all vectors over per-field alphabets in
// which at most two (thorough: three) fields differ from a base state, crossed
// with tile geometries, and a few states crossed with every small geometry;
// every rendering is checked against the relations of the property: size,
// determinism, clipping, inversion, unchanged input, colours, centring, and
// the order of strength bars.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"strconv"
	"time"

	"google.golang.org/protobuf/proto"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	gfx "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"

	"verif.local/harness/ex"
	"verif.local/harness/keep"
	"verif.local/harness/vk"
)

var c *vk.Check

func main() { vk.Main("C18", body) }

func body(k *vk.Check) {
	c = k
	c.Assume("Tile width, height and border are not negative.",
		"The active area is the tile without the border on all sides, or, without a border, without the columns and rows the shrink bits cut off on the right and at the bottom; only visible pixels are compared, not the padding of rows.",
		"Centring is asserted for the one- and two-line formats with text that neither starts nor ends with a character without ink, without extra character spacing; the ink must be centred to within one pixel.",
		"Strength bars are compared where no value text is shown (format Hide) and the range is not empty; the bar is what is lit in the three bottom rows of the active area.",
		"Colours without content and indices above 31 are not asserted.",
		"A rendering depends only on its inputs: it equals the same call made first in a fresh process, whatever was rendered before it and, as far as the explored schedules go, beside it.")
	if v := os.Getenv("VERIF_C18_FIRST"); v != "" {
		k, _ := strconv.Atoi(v)
		child(k)
	}
	if !ex.InWorker() {
		sequential()
	}
	ex.Explore(c, "concurrent renderings", func() []*ex.Scenario { return concurrent(false) }, ex.Options{})
	ex.Explore(c, "concurrent renderings with the race detector", func() []*ex.Scenario { return concurrent(true) }, ex.Options{Race: true})
}

func sequential() {
	c.Limit(20 * time.Second)
	c.Phase("fields x fields x geometries", fields)
	c.Phase("every small geometry", geometries)
	c.Phase("colours", colours)
	c.Phase("strength bars", bars)
	c.Phase("one- and two-line centring", centring)
	c.Phase("each rendering first in a fresh process, then all", orders)
	c.Phase("renderings kept and changed by the caller: all pairs", kept)
}

type geo struct{ w, h, shrink, border int }

func (g geo) active() (x, y, w, h int) {
	if g.border > 0 {
		return g.border, g.border, g.w - 2*g.border, g.h - 2*g.border
	}
	return 0, 0, g.w - g.shrink&1, g.h - g.shrink>>1&1
}

func fill(t *rwp.HWCText) *rwp.HWCText {
	t = proto.Clone(t).(*rwp.HWCText)
	if t.TextStyling == nil {
		t.TextStyling = &rwp.HWCText_TextStyle{}
	}
	if t.TextStyling.TextFont == nil {
		t.TextStyling.TextFont = &rwp.HWCText_TextStyle_Font{}
	}
	if t.TextStyling.TitleFont == nil {
		t.TextStyling.TitleFont = &rwp.HWCText_TextStyle_Font{}
	}
	if t.Scale == nil {
		t.Scale = &rwp.HWCText_ScaleM{}
	}
	return t
}

type bitmap struct {
	w, h, stride int
	b            []byte
}

func (m bitmap) at(x, y int) bool { return m.b[y*m.stride+x/8]>>(7-x%8)&1 != 0 }

// render executes the library and checks everything that holds for one call.
func render(t *rwp.HWCText, g geo) (m bitmap, img gfx.MonoImg, bad string) {
	in := proto.Clone(t).(*rwp.HWCText)
	img = rawpanel.WriteDisplayTileNew(in, g.w, g.h, g.shrink, g.border)
	m = bitmap{g.w, g.h, (g.w + 7) / 8, img.GetImgSlice()}
	if img.Width != g.w || img.Height != g.h || len(m.b) != m.stride*g.h {
		return m, img, fmt.Sprintf("size: image is %dx%d with %d bytes", img.Width, img.Height, len(m.b))
	}
	if !proto.Equal(fill(in), fill(t)) {
		return m, img, fmt.Sprintf("input: the state was changed to %v", in)
	}
	return m, img, ""
}

func check(t *rwp.HWCText, g geo) string {
	t = proto.Clone(t).(*rwp.HWCText)
	t.Inverted = false
	m, img, bad := render(t, g)
	if bad != "" {
		return bad
	}
	ax, ay, aw, ah := g.active()
	for y := 0; y < g.h; y++ {
		for x := 0; x < g.w; x++ {
			if (x < ax || x >= ax+aw || y < ay || y >= ay+ah) && m.at(x, y) {
				return fmt.Sprintf("outside: pixel %d,%d is lit, the active area is %d,%d %dx%d", x, y, ax, ay, aw, ah)
			}
		}
	}
	if m2, _, bad := render(t, g); bad != "" || !bytes.Equal(m.b, m2.b) {
		return "deterministic: two renderings differ" + bad
	}
	t.Inverted = true
	inv, imgInv, bad := render(t, g)
	if bad != "" {
		return bad
	}
	for y := 0; y < g.h; y++ {
		for x := 0; x < g.w; x++ {
			if m.at(x, y) == inv.at(x, y) {
				return fmt.Sprintf("inversion: pixel %d,%d is %v in both", x, y, m.at(x, y))
			}
		}
	}
	px, okP := colour(t.PixelColor, 0xffff)
	bg, okB := colour(t.BackgroundColor, 0)
	for i, im := range []gfx.MonoImg{img, imgInv} {
		rgb := im.GetImgSliceRGB()
		if len(rgb) != 2*g.w*g.h {
			return "size: RGB export"
		}
		for y := 0; y < g.h; y++ {
			for x := 0; x < g.w; x++ {
				k := 2 * (y*g.w + x)
				got := uint16(rgb[k])<<8 | uint16(rgb[k+1])
				on := m.at(x, y) != (i == 1)
				if on && okP && got != px {
					return fmt.Sprintf("colour: lit pixel exported as %04x, want %04x", got, px)
				}
				if !on && okB && got != bg {
					return fmt.Sprintf("colour: background exported as %04x, want %04x", got, bg)
				}
			}
		}
	}
	c.Trans(3)
	c.Trace(1)
	c.StateBytes(append([]byte(fmt.Sprint(g)), m.b...))
	return ""
}

// the documented colour table, rrggbb
var table = []int{0o77, 0, 0o77, 0o75, 0o60, 0o65, 0o63, 0o23, 0o64, 0o74, 0o03, 0o07, 0o33, 0o17, 0o34, 0o14, 0o15, 0o52, 0o25}

func colour(col *rwp.Color, def uint16) (uint16, bool) {
	if col == nil {
		return def, true
	}
	v := 0
	switch {
	case col.ColorRGB != nil:
		q := func(x uint32) int { return int(min(x, 255)) * 3 / 255 }
		v = q(col.ColorRGB.Red)<<4 | q(col.ColorRGB.Green)<<2 | q(col.ColorRGB.Blue)
	case col.ColorIndex != nil && col.ColorIndex.Index >= 0 && col.ColorIndex.Index < 32:
		v = table[0]
		if int(col.ColorIndex.Index) < len(table) {
			v = table[col.ColorIndex.Index]
		}
	default:
		return 0, false
	}
	five, six := []uint16{0, 10, 20, 31}, []uint16{0, 21, 42, 63}
	return five[v>>4] | six[v>>2&3]<<5 | five[v&3]<<11, true
}

func idx(i int) *rwp.Color {
	return &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i)}}
}
func rgb(r, g, b uint32) *rwp.Color {
	return &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: r, Green: g, Blue: b}}
}

func run(t *rwp.HWCText, g geo) bool {
	return c.Run(func() any {
		return map[string]any{"text": t.String(), "tile": fmt.Sprintf("%dx%d shrink %d border %d", g.w, g.h, g.shrink, g.border)}
	}, func() string { return check(t, g) })
}

// --- fields ---------------------------------------------------------------------

type setter func(t *rwp.HWCText)

func style(t *rwp.HWCText) *rwp.HWCText_TextStyle {
	if t.TextStyling == nil {
		t.TextStyling = &rwp.HWCText_TextStyle{}
	}
	return t.TextStyling
}

var texts = []string{"", "A", "Gain 12", "A rather long label text", "\n\r\x01", "æ日😀", "jqy|_", " x "}

func alphabets() [][]setter {
	var out [][]setter
	add := func(s ...setter) { out = append(out, s) }
	var f []setter
	for _, v := range []int32{5, -1, 123456, math.MaxInt32, math.MinInt32} {
		v := v
		f = append(f, func(t *rwp.HWCText) { t.IntegerValue = v })
	}
	add(f...)
	f = nil
	for v := 0; v <= 12; v++ {
		v := v
		f = append(f, func(t *rwp.HWCText) { t.Formatting = rwp.HWCText_FormattingE(v) })
	}
	add(f...)
	f = nil
	for v := 0; v <= 3; v++ {
		v := v
		f = append(f, func(t *rwp.HWCText) { t.StateIcon = rwp.HWCText_StateIconE(v) })
	}
	add(f...)
	f = nil
	for v := 0; v <= 7; v++ {
		v := v
		f = append(f, func(t *rwp.HWCText) { t.ModifierIcon = rwp.HWCText_ModifierIconE(v) })
	}
	add(f...)
	for k := 0; k < 3; k++ {
		f = nil
		for _, v := range texts {
			k, v := k, v
			f = append(f, func(t *rwp.HWCText) { *[]*string{&t.Title, &t.Textline1, &t.Textline2}[k] = v })
		}
		add(f...)
	}
	add(func(t *rwp.HWCText) { t.SolidHeaderBar = true })
	f = nil
	for _, v := range []int32{7, -99, math.MaxInt32, math.MinInt32} {
		v := v
		f = append(f, func(t *rwp.HWCText) { t.IntegerValue2 = v })
	}
	add(f...)
	f = nil
	for v := 0; v <= 4; v++ {
		v := v
		f = append(f, func(t *rwp.HWCText) { t.PairMode = rwp.HWCText_PairModeE(v) })
	}
	add(f...)
	f = nil
	for ty := 0; ty <= 3; ty++ {
		for _, r := range [][4]int32{{0, 0, 0, 0}, {0, 10, 2, 8}, {-100, 100, -200, 200}, {10, 0, 5, 5}, {math.MinInt32, math.MaxInt32, -1, 1}, {math.MaxInt32, math.MinInt32, math.MaxInt32, math.MinInt32}, {0, math.MaxInt32, math.MinInt32, math.MinInt32}} {
			ty, r := ty, r
			f = append(f, func(t *rwp.HWCText) {
				t.Scale = &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(ty), RangeLow: r[0], RangeHigh: r[1], LimitLow: r[2], LimitHigh: r[3]}
			})
		}
	}
	add(f...)
	fonts := []*rwp.HWCText_TextStyle_Font{{}, {FontFace: 1}, {FontFace: 2}, {FontFace: 7, TextWidth: 1, TextHeight: 1}, {TextWidth: 3, TextHeight: 3}, {FontFace: 1, TextWidth: 2}, {FontFace: 2, TextHeight: 2}, {TextWidth: 1, TextHeight: 3}}
	f = nil
	for _, v := range fonts {
		v := v
		f = append(f, func(t *rwp.HWCText) { style(t).TextFont = v })
	}
	add(f...)
	f = nil
	for _, v := range fonts {
		v := v
		f = append(f, func(t *rwp.HWCText) { style(t).TitleFont = v })
	}
	add(f...)
	add(func(t *rwp.HWCText) { style(t).FixedWidth = true })
	f = nil
	for _, v := range []uint32{0, 1, 2, 3} {
		v := v
		f = append(f, func(t *rwp.HWCText) { style(t).TitleBarPadding = v })
	}
	add(f...)
	f = nil
	for _, v := range []uint32{1, 2, 3} {
		v := v
		f = append(f, func(t *rwp.HWCText) { style(t).ExtraCharacterSpacing = v })
	}
	add(f...)
	f = nil
	for _, v := range []uint32{1, 2, 3, 4, 5} {
		v := v
		f = append(f, func(t *rwp.HWCText) { style(t).UnformattedFontSize = v })
	}
	add(f...)
	for k := 0; k < 2; k++ {
		f = nil
		for _, v := range []*rwp.Color{{}, idx(0), idx(1), idx(7), idx(18), idx(19), idx(31), rgb(255, 0, 128)} {
			k, v := k, v
			f = append(f, func(t *rwp.HWCText) { *[]**rwp.Color{&t.PixelColor, &t.BackgroundColor}[k] = v })
		}
		add(f...)
	}
	return out
}

func bases() []*rwp.HWCText {
	return []*rwp.HWCText{
		{},
		{IntegerValue: 42, Title: "Title", Textline1: "Label", Textline2: "Second", Scale: &rwp.HWCText_ScaleM{ScaleType: 1, RangeHigh: 100, LimitLow: 10, LimitHigh: 90}},
		{Formatting: 10, Title: "One line", Textline1: "x"},
		{Formatting: 11, Title: "x", Textline1: "First", Textline2: "Second line"},
		{Formatting: 7, Title: "Header", SolidHeaderBar: true, Textline1: "Up", Textline2: "Low", PairMode: 4, StateIcon: 2, ModifierIcon: 3},
	}
}

var geos = []geo{{64, 32, 0, 0}, {64, 48, 3, 0}, {112, 32, 1, 0}, {48, 24, 2, 0}, {96, 16, 0, 1}, {33, 31, 3, 2}, {256, 20, 0, 0}, {17, 9, 1, 0}, {64, 60, 3, 5}, {1, 1, 0, 0}, {0, 0, 3, 0}, {7, 40, 0, 4}, {128, 12, 3, 0}, {40, 7, 0, 9}}

func fields() {
	al := alphabets()
	bs := bases()
	type pick struct{ f, v int }
	var flat []pick
	for f := range al {
		for v := range al[f] {
			flat = append(flat, pick{f, v})
		}
	}
	gs := geos
	c.Extra("field_values", len(flat))
	c.Parallel(len(flat)+1, func(i int) {
		for j := i; j <= len(flat); j++ {
			if j < len(flat) && i < len(flat) && flat[i].f == flat[j].f && i != j {
				continue
			}
			for bi, b := range bs {
				t := proto.Clone(b).(*rwp.HWCText)
				if i < len(flat) {
					al[flat[i].f][flat[i].v](t)
				}
				if j < len(flat) {
					al[flat[j].f][flat[j].v](t)
				}
				t = proto.Clone(t).(*rwp.HWCText) // the alphabets share sub-messages
				for _, g := range gs {
					run(t, g)
				}
				if bi == 1 && j == i+1 && c.WantSample("state") {
					c.Sample("state", t.String())
				}
				if !c.Thorough() || i >= len(flat) || j >= len(flat) || i == j {
					continue
				}
				// triples on one geometry each
				for k := j + 1; k < len(flat); k++ {
					if flat[k].f == flat[j].f || flat[k].f == flat[i].f {
						continue
					}
					t3 := proto.Clone(t).(*rwp.HWCText)
					al[flat[k].f][flat[k].v](t3)
					run(proto.Clone(t3).(*rwp.HWCText), gs[(i+j+k+bi)%len(gs)])
				}
			}
		}
	})
}

func geometries() {
	sts := bases()
	sts = append(sts,
		&rwp.HWCText{Formatting: 3, IntegerValue: -1234, Textline1: "Lbl", PairMode: 3, IntegerValue2: 99, Textline2: "L2", StateIcon: 3},
		&rwp.HWCText{Formatting: 5, IntegerValue: 500, Title: "Shutter", StateIcon: 1, Scale: &rwp.HWCText_ScaleM{ScaleType: 2, RangeLow: -5, RangeHigh: 700, LimitLow: 1, LimitHigh: 2}},
		&rwp.HWCText{IntegerValue: 3, Scale: &rwp.HWCText_ScaleM{ScaleType: 3, RangeHigh: 7}, TextStyling: &rwp.HWCText_TextStyle{TextFont: &rwp.HWCText_TextStyle_Font{FontFace: 1, TextWidth: 3, TextHeight: 3}}},
		&rwp.HWCText{Formatting: 11, Textline1: "A text wider than most tiles, by far", Textline2: "WWWWWWWWWWWWWWWWWWWWWWWWWWWW", TextStyling: &rwp.HWCText_TextStyle{UnformattedFontSize: 4}})
	max := vk.Pick(c, 72, 100)
	var jobs []geo
	for w := 0; w <= max; w++ {
		for h := 0; h <= max; h++ {
			jobs = append(jobs, geo{w: w, h: h})
		}
	}
	for _, z := range [][2]int{{512, 300}, {1030, 64}, {64, 600}, {257, 257}, {4200, 8}} {
		jobs = append(jobs, geo{w: z[0], h: z[1]})
	}
	for _, w := range []int{100, 128, 200, 255, 256, 257, 300} {
		for h := 0; h <= 70; h += vk.Pick(c, 3, 1) {
			jobs = append(jobs, geo{w: w, h: h}, geo{w: h, h: w})
		}
	}
	c.Parallel(len(jobs), func(i int) {
		g := jobs[i]
		for si, t := range sts {
			for s := 0; s < 4; s++ {
				if !c.Thorough() && s > 1 && (s+si+g.w+g.h)%2 != 0 {
					continue
				}
				g.shrink = s
				for _, b := range []int{0, 1, 2, 5, 30} {
					g.border = b
					if b > 0 && s%3 != 0 {
						continue
					}
					run(t, g)
				}
			}
		}
	})
}

func colours() {
	ch := []uint32{0, 1, 84, 85, 86, 127, 128, 169, 170, 171, 254, 255}
	var cols []*rwp.Color
	for i := 0; i < 32; i++ {
		cols = append(cols, idx(i))
		both := idx(i)
		both.ColorRGB = rgb(uint32(i*8), 100, 200).ColorRGB
		cols = append(cols, both)
	}
	for _, r := range ch {
		for _, g := range ch {
			for _, b := range ch {
				cols = append(cols, rgb(r, g, b))
			}
		}
	}
	for v := uint32(0); v < 256; v++ {
		cols = append(cols, rgb(v, 0, 255), rgb(255, v, 0), rgb(0, 255, v))
	}
	c.Parallel(len(cols), func(i int) {
		for k, f := range []rwp.HWCText_FormattingE{0, 10, 11} {
			t := &rwp.HWCText{Formatting: f, Title: "T", Textline1: "x", PixelColor: cols[i]}
			run(t, geo{20, 16, k, 0})
			t = &rwp.HWCText{Formatting: f, Title: "T", BackgroundColor: cols[i]}
			run(t, geo{20, 16, 0, k})
			t = &rwp.HWCText{Formatting: f, Title: "T", PixelColor: cols[i], BackgroundColor: cols[(i*7+3)%len(cols)]}
			run(t, geo{9, 10, 0, 0})
		}
	})
}

func bars() {
	b := []int32{math.MinInt32, math.MinInt32 + 1, -1000000000, -1000, -7, -1, 0, 1, 10, 100, 4095, 1000000000, math.MaxInt32 - 1, math.MaxInt32}
	type job struct{ lo, hi int32 }
	var jobs []job
	for _, lo := range b {
		for _, hi := range b {
			if lo < hi {
				jobs = append(jobs, job{lo, hi})
			}
		}
	}
	gs := []geo{{64, 32, 0, 0}, {65, 24, 3, 0}, {16, 40, 0, 1}, {100, 20, 1, 0}, {9, 60, 2, 0}, {40, 33, 0, 3}, {3, 30, 0, 0}, {300, 20, 0, 0}, {530, 14, 1, 1}}
	c.Parallel(len(jobs)*len(gs), func(i int) {
		j, g := jobs[i/len(gs)], gs[i%len(gs)]
		seen := map[int64]bool{}
		var vals []int64
		add := func(v int64) {
			if v >= math.MinInt32 && v <= math.MaxInt32 && !seen[v] {
				seen[v] = true
				vals = append(vals, v)
			}
		}
		d := int64(j.hi) - int64(j.lo)
		steps := int64(vk.Pick(c, 40, 300))
		for k := int64(-3); k <= steps+3; k++ {
			add(int64(j.lo) + d*k/steps)
		}
		for _, v := range b {
			for e := int64(-1); e <= 1; e++ {
				add(int64(v) + e)
			}
		}
		sortInts(vals)
		for tl := 0; tl < 3; tl++ {
			for _, lim := range [][2]int32{{j.lo, j.hi}, {j.lo + 1, j.hi - 1}, {math.MaxInt32, math.MinInt32}} {
				mk := func(v int64) *rwp.HWCText {
					t := &rwp.HWCText{Formatting: rwp.HWCText_FMT_HIDE, IntegerValue: int32(v), Scale: &rwp.HWCText_ScaleM{ScaleType: 1, RangeLow: j.lo, RangeHigh: j.hi, LimitLow: lim[0], LimitHigh: lim[1]}}
					if tl > 0 {
						t.Title, t.SolidHeaderBar = "Tt", tl > 1
					}
					return t
				}
				lit := func(v int64) (out []bool, bad string) {
					m, _, bad := render(mk(v), g)
					if bad != "" {
						return nil, bad
					}
					ax, ay, aw, ah := g.active()
					for y := max(ay, ay+ah-3); y < ay+ah; y++ {
						for x := ax; x < ax+aw; x++ {
							out = append(out, m.at(x, y))
						}
					}
					return out, ""
				}
				in := func() any {
					return map[string]any{"text": mk(0).String(), "values": vals, "tile": fmt.Sprint(g)}
				}
				c.Run(in, func() string {
					var prev []bool
					for k, v := range vals {
						cur, bad := lit(v)
						if bad != "" {
							return bad
						}
						for p := range prev {
							if prev[p] && !cur[p] {
								return fmt.Sprintf("bar: with range %d..%d the bar of value %d is shorter than that of value %d", j.lo, j.hi, v, vals[k-1])
							}
						}
						prev = cur
						c.Trans(1)
					}
					c.Trace(1)
					return ""
				})
			}
		}
	})
}

func sortInts(v []int64) {
	for i := 1; i < len(v); i++ {
		for k := i; k > 0 && v[k] < v[k-1]; k-- {
			v[k], v[k-1] = v[k-1], v[k]
		}
	}
}

// blankEnd: the first or last character has no ink in this face.
func blankEnd(s string, face int) bool {
	_, a := ink(s[:1], face, 1, 1)
	_, b := ink(s[len(s)-1:], face, 1, 1)
	return !a || !b
}

// ink measures a text on a large canvas, independent of the tile code.
func ink(s string, face int, sh, sv int) (w int, ok bool) {
	m := &gfx.MonoImg{}
	m.NewImage(2000, 40)
	m.SetFont(face, true)
	m.SetTextSize(sh, sv)
	m.SetTextColor(true)
	m.SetTextWrap(false)
	m.SetCursor(4, 4)
	m.RenderText(s)
	lo, hi := 2000, -1
	b := bitmap{2000, 40, 250, m.GetImgSlice()}
	for y := 0; y < 40; y++ {
		for x := 0; x < 2000; x++ {
			if b.at(x, y) {
				lo, hi = min(lo, x), max(hi, x)
			}
		}
	}
	return hi - lo + 1, hi >= 0
}

func centring() {
	var list []string
	for ch := 33; ch < 127; ch++ {
		list = append(list, string(rune(ch)))
	}
	set := "iWl.1M|"
	for _, a := range set {
		for _, b := range set {
			list = append(list, string(a)+string(b), string(a)+" "+string(b))
			for _, d := range set {
				if c.Thorough() {
					list = append(list, string(a)+string(b)+string(d))
				}
			}
		}
	}
	list = append(list, "Hello", "Camera 1", "A very long line of text", "0123456789", "fjord", "(test)", "~`^", "x-y",
		"A line of text which is longer than two hundred pixels", "MMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMM", "0123456789012345678901234567890123456789012345678901234567890123456789")
	gs := []geo{{700, 70, 0, 0}, {1029, 40, 2, 0}, {64, 32, 0, 0}, {65, 32, 0, 0}, {64, 48, 1, 0}, {112, 33, 2, 0}, {112, 64, 3, 0}, {96, 40, 0, 2}, {97, 70, 0, 3}, {20, 16, 0, 0}, {9, 17, 1, 0}, {256, 64, 0, 1}}
	height := []int{8, 8, 6}
	c.Parallel(len(list), func(i int) {
		s := list[i]
		for face := 0; face < 3; face++ {
			half := list[(i*5+1)%len(list)]
			if blankEnd(s, face) {
				continue
			}
			skip2 := blankEnd(half, face)
			for size := 0; size < 4*4*4; size++ {
				un, fw, fh := size&3+1, size>>2&3, size>>4&3
				if !c.Thorough() && fw != 0 && un > 1 {
					continue
				}
				sh, sv := fw, fh
				if sh == 0 {
					sh = un
				}
				if sv == 0 {
					sv = un
				}
				wInk, ok := ink(s, face, sh, sv)
				if !ok {
					continue
				}
				for _, g := range gs {
					ax, ay, aw, ah := g.active()
					lh := height[face] * sv
					for two := 0; two < 2; two++ {
						need := lh * (1 + two)
						if wInk > aw || need > ah {
							continue
						}
						t := &rwp.HWCText{Formatting: rwp.HWCText_FormattingE(10 + two), Title: s, Textline1: s, Textline2: s,
							TextStyling: &rwp.HWCText_TextStyle{UnformattedFontSize: uint32(un), TextFont: &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(face), TextWidth: uint32(fw), TextHeight: uint32(fh)}}}
						mixed := two == 1 && i%2 == 1 && !skip2
						if mixed {
							t.Textline2 = half
						}
						c.Run(func() any {
							return map[string]any{"text": t.String(), "tile": fmt.Sprintf("%dx%d shrink %d border %d", g.w, g.h, g.shrink, g.border)}
						}, func() string {
							m, _, bad := render(t, g)
							if bad != "" {
								return bad
							}
							c.Trans(1)
							c.Trace(1)
							c.StateBytes(append([]byte(fmt.Sprint(g)), m.b...))
							part := func(y0, y1 int, what string) string {
								lo, hi := g.w, -1
								for y := y0; y < y1; y++ {
									for x := 0; x < g.w; x++ {
										if m.at(x, y) {
											lo, hi = min(lo, x), max(hi, x)
										}
									}
								}
								if hi < 0 {
									return fmt.Sprintf("centre: %s is not drawn", what)
								}
								l, r := lo-ax, ax+aw-1-hi
								if l-r > 2 || r-l > 2 {
									return fmt.Sprintf("centre: %s has %d pixels to the left and %d to the right", what, l, r)
								}
								if hi-lo+1 < wInk && !(mixed && what == "line 2") {
									return fmt.Sprintf("centre: %s is %d pixels wide, its text is %d", what, hi-lo+1, wInk)
								}
								return ""
							}
							if two == 0 {
								return part(ay, ay+ah, "the line")
							}
							if b := part(ay, ay+ah/2, "line 1"); b != "" {
								return b
							}
							if mixed {
								if w2, ok := ink(half, face, sh, sv); !ok || w2 > aw {
									return ""
								}
							}
							return part(ay+ah/2, ay+ah, "line 2")
						})
					}
				}
			}
		}
	})
}

// kept: a rendering belongs to the caller.
func kept() {
	var calls []keep.Call
	for i, r := range renderings() {
		if i%4 == 0 || r.t.Inverted {
			calls = append(calls, keep.Call{Name: r.String(), Do: func() any {
				img := rawpanel.WriteDisplayTileNew(proto.Clone(r.t).(*rwp.HWCText), r.g.w, r.g.h, r.g.shrink, r.g.border)
				return &img
			}})
		}
	}
	keep.Pairs(c, keep.Mono(), calls)
}

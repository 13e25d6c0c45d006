// C17: pixel formats. Every small bitmap, every 16-bit colour, every 6-bit
// colour pair and every length of image data is pushed through every conversion
// routine; results are compared with an independent expansion and with each
// other.
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"os"
	"time"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	gfx "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"

	"verif.local/harness/keep"
	"verif.local/harness/vk"
)

var c *vk.Check

func main() { vk.Main("C17", body) }

func body(k *vk.Check) {
	c = k
	c.Assume("A PNG has at least one pixel, so states of width or height 0 are converted to images only, and declared sizes are such that the image fits into memory.",
		"The round trip through an image object uses the non-inverting pair ConvertToImage(false), CreateFromImage.",
		"Expansion: 5-bit v*255/31, 6-bit v*255/63, 4-bit v*17, set mono bit white; pixels without data are not asserted.",
		"The grey level of a colour may differ from the exact luma by one of 256 levels before it is cut to 4 bits.",
		"RwpImgToImage centres an image in a target of another size, offsets rounded towards zero.")
	c.Limit(20 * time.Second)
	c.Phase("every small bitmap: exports and round trip", small)
	c.Phase("every position in larger bitmaps", positions)
	c.Phase("every 16-bit and every 6-bit colour", colours)
	c.Phase("one image object through histories of changes and exports", reuse)
	c.Phase("graphics states: sizes x data lengths x routines", states)
	c.Phase("graphics states: every stored value", values)
	c.Phase("graphics states: single pixels", single)
	c.Phase("targets of another size", targets)
	c.Phase("large images", large)
	c.Phase("results kept and changed by the caller: all pairs of calls", kept)
}

// --- exports of a mono image ---------------------------------------------------

// luma returns the acceptable grey nibbles of a colour.
func luma(col uint16) map[byte]bool {
	r, g, b := float64(col&31)*255/31, float64(col>>5&63)*255/63, float64(col>>11)*255/31
	y := 0.299*r + 0.587*g + 0.114*b
	out := map[byte]bool{}
	for _, d := range []float64{-1, 0, 1} {
		v := y + d
		if v < 0 {
			v = 0
		}
		if v > 255 {
			v = 255
		}
		out[byte(v)>>4] = true
	}
	return out
}

func mono(w, h int, data []byte, px, bg uint16) string {
	stride := (w + 7) / 8
	m := &gfx.MonoImg{}
	own := append([]byte(nil), data...)
	if err := m.CreateFromBytes(w, h, own); err != nil {
		return "create: " + err.Error()
	}
	m.OLEDPixelColor, m.OLEDBckgColor = px, bg
	bit := func(x, y int) bool { return data[y*stride+x/8]>>(7-x%8)&1 != 0 }
	rgb := m.GetImgSliceRGB()
	if len(rgb) != 2*w*h {
		return fmt.Sprintf("rgbsize: RGB export of a %dx%d image has %d bytes", w, h, len(rgb))
	}
	gray := m.GetImgSliceGray()
	even := w%2 == 0
	if even && len(gray) != w*h/2 {
		return fmt.Sprintf("greysize: grey export of a %dx%d image has %d bytes", w, h, len(gray))
	}
	lp, lb := luma(px), luma(bg)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			i := y*w + x
			want, l := bg, lb
			if bit(x, y) {
				want, l = px, lp
			}
			if got := uint16(rgb[2*i])<<8 | uint16(rgb[2*i+1]); got != want {
				return fmt.Sprintf("rgb: pixel %d,%d exported as %04x, want %04x", x, y, got, want)
			}
			if even {
				n := gray[i/2] >> 4
				if i%2 == 1 {
					n = gray[i/2] & 15
				}
				if !l[n] {
					return fmt.Sprintf("grey: pixel %d,%d exported as grey %d, luma of %04x is %v", x, y, n, want, l)
				}
			}
		}
	}
	for _, inv := range []bool{false, true} {
		img := m.ConvertToImage(inv)
		if img.Bounds() != image.Rect(0, 0, w, h) {
			return fmt.Sprintf("imagesize: image of a %dx%d bitmap is %v", w, h, img.Bounds())
		}
		b := &gfx.MonoImg{}
		b.CreateFromImage(img)
		if b.Width != w || b.Height != h || len(b.GetImgSlice()) != stride*h {
			return fmt.Sprintf("roundtrip: %dx%d became %dx%d, %d bytes", w, h, b.Width, b.Height, len(b.GetImgSlice()))
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if (b.GetImgSlice()[y*stride+x/8]>>(7-x%8)&1 != 0) != (bit(x, y) != inv) {
					return fmt.Sprintf("roundtrip: pixel %d,%d of the round trip (inverted: %v) is wrong", x, y, inv)
				}
			}
		}
	}
	if !bytes.Equal(m.GetImgSlice(), data) {
		return "changed: exporting changed the image"
	}
	return ""
}

func runMono(w, h int, data []byte, px, bg uint16) {
	c.Run(func() any {
		return map[string]any{"w": w, "h": h, "data": fmt.Sprintf("%x", data), "pixel": px, "background": bg}
	}, func() string {
		c.Trans(4)
		c.Trace(1)
		c.StateBytes(append([]byte(fmt.Sprintf("m%d %d %d %d ", w, h, px, bg)), data...))
		return mono(w, h, data, px, bg)
	})
}

func small() {
	maxBits := vk.Pick(c, 13, 17)
	type sz struct{ w, h int }
	var l []sz
	for w := 0; w <= 18; w++ {
		for h := 0; h <= 9; h++ {
			if w*h <= maxBits {
				l = append(l, sz{w, h})
			}
		}
	}
	c.Parallel(len(l), func(i int) {
		w, h := l[i].w, l[i].h
		stride := (w + 7) / 8
		for v := 0; v < 1<<(w*h); v++ {
			for pad := 0; pad < 2; pad++ {
				d := make([]byte, stride*h)
				if pad == 1 {
					for k := range d {
						d[k] = 0xff
					}
				}
				for k := 0; k < w*h; k++ {
					p := k/w*8*stride + k%w
					d[p/8] &^= 0x80 >> (p % 8)
					if v>>k&1 != 0 {
						d[p/8] |= 0x80 >> (p % 8)
					}
				}
				runMono(w, h, d, 0xf81f, 0x07c1)
			}
		}
		if i == len(l)/2 {
			c.Sample("bitmap", fmt.Sprintf("%dx%d, all contents, padding clear and set", w, h))
		}
	})
}

func positions() {
	var jobs [][2]int
	for _, w := range []int{2, 8, 15, 16, 17, 24, 31, 34, 64} {
		for _, h := range []int{1, 3, 8, 33} {
			jobs = append(jobs, [2]int{w, h})
		}
	}
	c.Parallel(len(jobs), func(i int) {
		w, h := jobs[i][0], jobs[i][1]
		n := (w + 7) / 8 * h
		for b := 0; b < n*8; b++ {
			for inv := 0; inv < 2; inv++ {
				d := make([]byte, n)
				d[b/8] = 0x80 >> (b % 8)
				if inv == 1 {
					for k := range d {
						d[k] ^= 0xff
					}
				}
				runMono(w, h, d, 0xffff, 0)
			}
		}
		for a := 0; a < 256; a++ {
			d := make([]byte, n)
			for k := range d {
				d[k] = byte(k*a + a)
			}
			runMono(w, h, d, uint16(a)<<8|0x5a, ^(uint16(a)<<8 | 0x5a))
		}
	})
}

func colours() {
	c.Parallel(65536, func(v int) {
		col := uint16(v)
		for k, o := range []uint16{0, 0xffff, ^col, 0x1234} {
			d := []byte{0xa5, 0x3c}
			w, h := 8, 2
			if k%2 == 1 {
				w, h = 10, 1
			}
			runMono(w, h, d, col, o)
			runMono(w, h, d, o, col)
		}
		c.Run(fmt.Sprintf("RGB16BitToGray(%d)", v), func() string {
			if g := gfx.RGB16BitToGray(col); !luma(col)[g>>4] {
				return fmt.Sprintf("luma: grey level of %04x is %d", col, g)
			}
			return ""
		})
	})
	// 6-bit colours; further bits are ignored
	five, six := []uint16{0, 10, 20, 31}, []uint16{0, 21, 42, 63}
	want := func(v int) uint16 { return five[v>>4&3] | six[v>>2&3]<<5 | five[v&3]<<11 }
	for v := -256; v < 1024; v++ {
		for _, o := range []int{0, 63, v ^ 0x2a} {
			c.Run(map[string]int{"pixel": v, "background": o}, func() string {
				m := &gfx.MonoImg{}
				m.NewImage(2, 1)
				m.SetOLEDPixelColor(v)
				m.SetOLEDBckgColor(o)
				c.Trans(2)
				c.Trace(1)
				if m.OLEDPixelColor != want(v) {
					return fmt.Sprintf("sixbit: pixel colour %d is %04x, want %04x", v, m.OLEDPixelColor, want(v))
				}
				if m.OLEDBckgColor != want(o) {
					return fmt.Sprintf("sixbit: background colour %d is %04x, want %04x", o, m.OLEDBckgColor, want(o))
				}
				m.SetOLEDBckgColor(v)
				if m.OLEDBckgColor != want(v) || m.OLEDPixelColor != want(v) {
					return fmt.Sprintf("sixbit: background colour %d is %04x, want %04x", v, m.OLEDBckgColor, want(v))
				}
				m.DrawPixel(0, 0, true)
				if e := m.GetImgSliceRGB(); len(e) != 4 || uint16(e[0])<<8|uint16(e[1]) != want(v) {
					return "sixbit: exported colour differs"
				}
				return ""
			})
		}
	}
}

// --- graphics states ----------------------------------------------------------------

// expand returns the colour of a stored pixel, ok false where the data does not
// cover it.
func expand(g *rwp.HWCGfx, x, y int) (col color.RGBA, ok bool) {
	w, d := int(g.W), g.ImageData
	switch g.ImageType {
	case rwp.HWCGfx_MONO:
		i := y*((w+7)/8) + x/8
		if i >= len(d) {
			return
		}
		if d[i]>>(7-x%8)&1 != 0 {
			return color.RGBA{255, 255, 255, 255}, true
		}
		return color.RGBA{0, 0, 0, 255}, true
	case rwp.HWCGfx_RGB16bit:
		i := 2 * (y*w + x)
		if i+1 >= len(d) {
			return
		}
		v := int(d[i])<<8 | int(d[i+1])
		return color.RGBA{byte((v & 31) * 255 / 31), byte((v >> 5 & 63) * 255 / 63), byte((v >> 11) * 255 / 31), 255}, true
	default:
		i := y*w + x
		if i/2 >= len(d) {
			return
		}
		v := d[i/2] >> 4
		if i%2 == 1 {
			v = d[i/2] & 15
		}
		return color.RGBA{v * 17, v * 17, v * 17, 255}, true
	}
}

func matches(name string, img image.Image, g *rwp.HWCGfx, ox, oy, tw, th int) string {
	if img == nil {
		return name + ": no image"
	}
	if img.Bounds() != image.Rect(0, 0, tw, th) {
		return fmt.Sprintf("%s: image is %v, want %dx%d", name, img.Bounds(), tw, th)
	}
	for y := 0; y < int(g.H); y++ {
		for x := 0; x < int(g.W); x++ {
			want, ok := expand(g, x, y)
			px, py := x+ox, y+oy
			if !ok || px < 0 || py < 0 || px >= tw || py >= th {
				continue
			}
			if got := color.RGBAModel.Convert(img.At(px, py)).(color.RGBA); got != want {
				return fmt.Sprintf("%s: stored pixel %d,%d (%v) became %v", name, x, y, want, got)
			}
		}
	}
	return ""
}

func check(g *rwp.HWCGfx) string {
	keep := append([]byte(nil), g.ImageData...)
	w, h := int(g.W), int(g.H)
	st := &rwp.HWCState{HWCIDs: []uint32{1}, HWCGfx: g}
	if w > 0 && h > 0 {
		b, err := rawpanel.ConvertGfxStateToPngBytes(st)
		if err != nil {
			return "png: " + err.Error()
		}
		img, err := png.Decode(bytes.NewReader(b))
		if err != nil {
			return fmt.Sprintf("png: not a PNG: %v", err)
		}
		if s := matches("png", img, g, 0, 0, w, h); s != "" {
			return s
		}
	} else {
		rawpanel.ConvertGfxStateToPngBytes(st)
	}
	switch g.ImageType {
	case rwp.HWCGfx_RGB16bit:
		if s := matches("rgbobject", rawpanel.CreateImgObjectFromRGBBytes(w, h, g.ImageData), g, 0, 0, w, h); s != "" {
			return s
		}
	case rwp.HWCGfx_Gray4bit:
		if s := matches("greyobject", rawpanel.CreateImgObjectFromGrayBytes(w, h, g.ImageData), g, 0, 0, w, h); s != "" {
			return s
		}
	case rwp.HWCGfx_MONO:
		m := &gfx.MonoImg{}
		full := len(g.ImageData) >= (w+7)/8*h
		err := m.CreateFromBytes(w, h, g.ImageData)
		if full && err != nil {
			return fmt.Sprintf("monoobject: %d bytes for %dx%d: error %v", len(g.ImageData), w, h, err)
		}
		img := m.ConvertToImage(true)
		if full {
			if s := matches("monoobject", img, g, 0, 0, w, h); s != "" {
				return s
			}
		} else if img.Bounds() != image.Rect(0, 0, w, h) {
			return "monoobject: size"
		}
	}
	if s := matches("helper", rawpanel.RwpImgToImage(g, w, h), g, 0, 0, w, h); s != "" {
		return s
	}
	if !bytes.Equal(keep, g.ImageData) {
		return "changed: the conversion changed the state"
	}
	return ""
}

func runState(t rwp.HWCGfx_ImageTypeE, w, h int, data []byte) {
	c.Run(func() any {
		return map[string]any{"type": t.String(), "w": w, "h": h, "data": fmt.Sprintf("%x", data)}
	}, func() string {
		c.Trans(4)
		c.Trace(1)
		c.StateBytes(append([]byte(fmt.Sprintf("s%d %d %d ", t, w, h)), data...))
		return check(&rwp.HWCGfx{ImageType: t, W: uint32(w), H: uint32(h), ImageData: data})
	})
}

var types = []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}

func full(t rwp.HWCGfx_ImageTypeE, w, h int) int {
	switch t {
	case rwp.HWCGfx_MONO:
		return (w + 7) / 8 * h
	case rwp.HWCGfx_RGB16bit:
		return 2 * w * h
	}
	return (w*h + 1) / 2
}

func states() {
	ws := vk.Pick(c, []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 25}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 24, 25, 33})
	hs := []int{0, 1, 2, 3, 5, 8}
	c.Parallel(len(ws)*len(hs)*3, func(i int) {
		t, w, h := types[i%3], ws[i/3%len(ws)], hs[i/3/len(ws)]
		n := full(t, w, h)
		for l := 0; l <= n+3; l++ {
			for p := 0; p < 3; p++ {
				d := make([]byte, l)
				for k := range d {
					d[k] = []byte{0xff, byte(k*37 + 0x5b), byte(k*151) ^ 0xe1}[p]
				}
				runState(t, w, h, d)
			}
		}
		runState(t, w, h, nil)
	})
	// a state that is not an image
	o := os.Stdout
	defer func() { os.Stdout = o }()
	for _, st := range []*rwp.HWCState{nil, {}, {HWCGfx: &rwp.HWCGfx{}}, {HWCGfx: &rwp.HWCGfx{ImageType: 7, W: 3, H: 3}}, {HWCText: &rwp.HWCText{}}} {
		c.Run(st.String(), func() string {
			rawpanel.ConvertGfxStateToPngBytes(st)
			if st != nil && st.HWCGfx != nil {
				rawpanel.RwpImgToImage(st.HWCGfx, 3, 3)
			}
			return ""
		})
	}
	c.Sample("state", map[string]any{"type": "MONO", "w": 9, "h": 2, "data": "every length 0..7"})
}

func values() {
	// all 65536 stored RGB words, in both byte positions of four images; all grey and mono bytes
	c.Parallel(256, func(i int) {
		d := make([]byte, 512)
		for k := 0; k < 256; k++ {
			d[2*k], d[2*k+1] = byte(i), byte(k)
		}
		runState(rwp.HWCGfx_RGB16bit, 16, 16, d)
		runState(rwp.HWCGfx_RGB16bit, 256, 1, d)
		for _, t := range types {
			for k := 0; k < 256; k++ {
				if t == rwp.HWCGfx_RGB16bit && !c.Thorough() {
					continue
				}
				runState(t, 4, 1, []byte{byte(i), byte(k)})
				if c.Thorough() {
					runState(t, 1, 2, []byte{byte(i), byte(k)})
				}
				runState(t, 3, 2, []byte{byte(i), byte(k), byte(i), byte(k)})
				runState(t, 9, 2, []byte{byte(i), byte(k), byte(k), byte(i)})
			}
		}
	})
}

func single() {
	sizes := [][2]int{{9, 7}, {16, 5}, {33, 3}, {64, 32}}
	c.Parallel(len(sizes)*3, func(i int) {
		t, w, h := types[i%3], sizes[i/3][0], sizes[i/3][1]
		n := full(t, w, h)
		step := 1
		if w == 64 && !c.Thorough() {
			step = 7
		}
		for b := 0; b < n*8; b += step {
			d := make([]byte, n)
			d[b/8] = 0x80 >> (b % 8)
			runState(t, w, h, d)
			for k := range d {
				d[k] ^= 0xff
			}
			runState(t, w, h, d)
		}
	})
}

func targets() {
	var jobs [][2]int
	for w := 0; w <= 12; w++ {
		for h := 0; h <= 6; h++ {
			jobs = append(jobs, [2]int{w, h})
		}
	}
	c.Parallel(len(jobs), func(i int) {
		w, h := jobs[i][0], jobs[i][1]
		for _, t := range types {
			for tw := 0; tw <= 16; tw++ {
				for th := 0; th <= 9; th++ {
					d := make([]byte, full(t, w, h))
					for k := range d {
						d[k] = byte(k*53 + 0x6d)
					}
					for _, l := range []int{len(d), len(d) / 2} {
						g := &rwp.HWCGfx{ImageType: t, W: uint32(w), H: uint32(h), ImageData: d[:l]}
						c.Run(func() any {
							return map[string]any{"type": t.String(), "w": w, "h": h, "data": fmt.Sprintf("%x", d[:l]), "target": fmt.Sprintf("%dx%d", tw, th)}
						}, func() string {
							c.Trans(1)
							c.Trace(1)
							return matches("target", rawpanel.RwpImgToImage(g, tw, th), g, (tw-w)/2, (th-h)/2, tw, th)
						})
					}
				}
			}
		}
	})
}

// large: images whose sizes, pixel counts and byte counts do not fit into 8 or
// 16 bits, through every routine; the contents differ from place to place.
func large() {
	sizes := [][2]int{{256, 3}, {257, 2}, {2, 257}, {3, 260}, {300, 200}, {128, 513}, {513, 128}, {1030, 70}, {66000, 1}, {1, 66000}, {8, 8300}, {640, 480}, {1100, 500}}
	if c.Thorough() {
		sizes = append(sizes, [2]int{1024, 768}, [2]int{2048, 1100}, [2]int{132000, 2}, [2]int{2, 132000})
	}
	pattern := func(n, p int) []byte {
		d := make([]byte, n)
		for k := range d {
			v := uint32(k+p)*2654435761 + 12345
			d[k] = byte(v>>24) ^ byte(v>>11)
		}
		return d
	}
	c.Parallel(len(sizes)*5, func(i int) {
		w, h, kind := sizes[i/5][0], sizes[i/5][1], i%5
		if kind > 2 {
			col := []uint16{0xf81f, 0x1234}[kind-3]
			c.Run(map[string]any{"mono image": fmt.Sprintf("%dx%d", w, h), "pattern": kind, "pixel": col}, func() string {
				c.Trans(4)
				c.Trace(1)
				c.State(fmt.Sprint("large mono", w, h, kind))
				return mono(w, h, pattern((w+7)/8*h, kind), col, ^col)
			})
			return
		}
		t := types[kind]
		n := full(t, w, h)
		for _, l := range []int{n, n - 1, n / 2, n + 700} {
			for p := 0; p < 2; p++ {
				c.Run(map[string]any{"type": t.String(), "w": w, "h": h, "bytes": l, "pattern": p}, func() string {
					c.Trans(4)
					c.Trace(1)
					c.State(fmt.Sprint("large", t, w, h, l, p))
					return check(&rwp.HWCGfx{ImageType: t, W: uint32(w), H: uint32(h), ImageData: pattern(l, p)})
				})
			}
		}
		for _, z := range [][2]int{{w + 301, h + 12}, {w / 2, h}, {w, h/2 + 300}} {
			c.Run(map[string]any{"type": t.String(), "w": w, "h": h, "target": z}, func() string {
				c.Trans(1)
				c.Trace(1)
				g := &rwp.HWCGfx{ImageType: t, W: uint32(w), H: uint32(h), ImageData: pattern(n, 9)}
				return matches("target", rawpanel.RwpImgToImage(g, z[0], z[1]), g, (z[0]-w)/2, (z[1]-h)/2, z[0], z[1])
			})
		}
	})
}

// reuse: all histories of changes of one image object; after every change all
// exports are compared with a model of the bitmap.
func reuse() {
	type model struct {
		w, h int
		b    []bool
	}
	ops := []struct {
		name string
		do   func(m *gfx.MonoImg, r *model)
	}{
		{"new 10x3", func(m *gfx.MonoImg, r *model) { m.NewImage(10, 3); *r = model{10, 3, make([]bool, 30)} }},
		{"new 3x10", func(m *gfx.MonoImg, r *model) { m.NewImage(3, 10); *r = model{3, 10, make([]bool, 30)} }},
		{"new 16x4", func(m *gfx.MonoImg, r *model) { m.NewImage(16, 4); *r = model{16, 4, make([]bool, 64)} }},
		{"bytes 9x2", func(m *gfx.MonoImg, r *model) {
			m.CreateFromBytes(9, 2, []byte{0xa5, 0xff, 0x5a, 0x00})
			*r = model{9, 2, make([]bool, 18)}
			for i := range r.b {
				r.b[i] = []byte{0xa5, 0xff, 0x5a, 0x00}[i/9*2+i%9/8]>>(7-i%9%8)&1 != 0
			}
		}},
		{"image 6x5", func(m *gfx.MonoImg, r *model) {
			g := image.NewGray(image.Rect(0, 0, 6, 5))
			*r = model{6, 5, make([]bool, 30)}
			for i := range r.b {
				// Dark pixels are set.
				r.b[i] = true
				if i%4 == 1 || i%7 == 2 {
					g.SetGray(i%6, i/6, color.Gray{255})
					r.b[i] = false
				}
			}
			m.CreateFromImage(g)
		}},
		{"pixel 1,1 on", func(m *gfx.MonoImg, r *model) {
			m.DrawPixel(1, 1, true)
			if r.w > 1 && r.h > 1 {
				r.b[r.w+1] = true
			}
		}},
		{"pixel 1,1 off", func(m *gfx.MonoImg, r *model) {
			m.DrawPixel(1, 1, false)
			if r.w > 1 && r.h > 1 {
				r.b[r.w+1] = false
			}
		}},
		{"fill", func(m *gfx.MonoImg, r *model) {
			m.FillRect(0, 0, r.w, r.h, true)
			for i := range r.b {
				r.b[i] = true
			}
		}},
		{"colours 5 on 60", func(m *gfx.MonoImg, r *model) { m.SetOLEDPixelColor(5); m.SetOLEDBckgColor(60) }},
		{"colours 60 on 5", func(m *gfx.MonoImg, r *model) { m.SetOLEDBckgColor(5); m.SetOLEDPixelColor(60) }},
		{"pixel colour 0", func(m *gfx.MonoImg, r *model) { m.SetOLEDPixelColor(0) }},
	}
	n := len(ops)
	depth := vk.Pick(c, 4, 5)
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	c.Parallel(total, func(i int) {
		var seq []int
		for k, v := 0, i; k < depth; k, v = k+1, v/n {
			seq = append(seq, v%n)
		}
		c.Run(func() any {
			var l []string
			for _, k := range seq {
				l = append(l, ops[k].name)
			}
			return l
		}, func() string {
			m, r := &gfx.MonoImg{}, &model{}
			m.NewImage(8, 8)
			*r = model{8, 8, make([]bool, 64)}
			for k, o := range seq {
				ops[o].do(m, r)
				c.Trans(1)
				stride := (r.w + 7) / 8
				if m.Width != r.w || m.Height != r.h {
					return fmt.Sprintf("reuse: after step %d the image is %dx%d, want %dx%d", k, m.Width, m.Height, r.w, r.h)
				}
				b := m.GetImgSlice()
				rgb, gray := m.GetImgSliceRGB(), m.GetImgSliceGray()
				img := m.ConvertToImage(false)
				if len(b) != stride*r.h || len(rgb) != 2*r.w*r.h || r.w%2 == 0 && len(gray) != r.w*r.h/2 || img.Bounds() != image.Rect(0, 0, r.w, r.h) {
					return fmt.Sprintf("reuse: after step %d the exports have %d, %d and %d bytes and the image is %v", k, len(b), len(rgb), len(gray), img.Bounds())
				}
				back := &gfx.MonoImg{}
				back.CreateFromImage(img)
				if len(back.GetImgSlice()) != len(b) {
					return fmt.Sprintf("reuse: after step %d the round trip has %d bytes, want %d", k, len(back.GetImgSlice()), len(b))
				}
				lp, lb := luma(m.OLEDPixelColor), luma(m.OLEDBckgColor)
				for p, on := range r.b {
					x, y := p%r.w, p/r.w
					want, l := m.OLEDBckgColor, lb
					if on {
						want, l = m.OLEDPixelColor, lp
					}
					if b[y*stride+x/8]>>(7-x%8)&1 != 0 != on {
						return fmt.Sprintf("reuse: after step %d pixel %d,%d of the bitmap is wrong", k, x, y)
					}
					if uint16(rgb[2*p])<<8|uint16(rgb[2*p+1]) != want {
						return fmt.Sprintf("reuse: after step %d pixel %d,%d of the RGB export is wrong", k, x, y)
					}
					if r.w%2 == 0 && !l[gray[p/2]>>(4-p%2*4)&15] {
						return fmt.Sprintf("reuse: after step %d pixel %d,%d of the grey export is wrong", k, x, y)
					}
					if back.GetImgSlice()[y*stride+x/8]>>(7-x%8)&1 != 0 != on {
						return fmt.Sprintf("reuse: after step %d pixel %d,%d of the round trip is wrong", k, x, y)
					}
				}
			}
			c.Trace(1)
			c.State(fmt.Sprint(m.Width, m.OLEDPixelColor, m.OLEDBckgColor) + string(m.GetImgSlice()))
			return ""
		})
	})
}

// kept: what the exports and conversions yield belongs to the caller.
func kept() {
	var images, data, monos []keep.Call
	for i := 0; i < 30; i++ {
		t, w, h := types[i%3], []int{8, 8, 9, 16, 3}[i/3%5], []int{4, 4, 2, 1}[i/7%4]
		d := make([]byte, full(t, w, h))
		for k := range d {
			d[k] = byte(k*37 + i*11 + 0x5b)
		}
		if i%6 == 5 {
			d = d[:len(d)/2]
		}
		g := func() *rwp.HWCGfx {
			return &rwp.HWCGfx{ImageType: t, W: uint32(w), H: uint32(h), ImageData: append([]byte{}, d...)}
		}
		n := fmt.Sprintf("of a %s state of %dx%d with data %x", t, w, h, d)
		img := func(s string, f func() image.Image) {
			images = append(images, keep.Call{Name: s + " " + n, Do: func() any { return f() }})
		}
		by := func(s string, f func() []byte) {
			data = append(data, keep.Call{Name: s + " " + n, Do: func() any { return f() }})
		}
		img("image", func() image.Image { return rawpanel.RwpImgToImage(g(), w, h) })
		if i%4 == 0 {
			img("image on 10x10", func() image.Image { return rawpanel.RwpImgToImage(g(), 10, 10) })
		}
		by("PNG", func() []byte { b, _ := rawpanel.ConvertGfxStateToPngBytes(&rwp.HWCState{HWCGfx: g()}); return b })
		switch t {
		case rwp.HWCGfx_RGB16bit:
			img("RGB object", func() image.Image { return rawpanel.CreateImgObjectFromRGBBytes(w, h, append([]byte{}, d...)) })
		case rwp.HWCGfx_Gray4bit:
			img("grey object", func() image.Image { return rawpanel.CreateImgObjectFromGrayBytes(w, h, append([]byte{}, d...)) })
		case rwp.HWCGfx_MONO:
			obj := func() *gfx.MonoImg {
				m := &gfx.MonoImg{}
				m.CreateFromBytes(w, h, append([]byte{}, d...))
				m.SetOLEDPixelColor(5 + i)
				m.SetOLEDBckgColor(60 - i)
				return m
			}
			img("bitmap object", func() image.Image { return obj().ConvertToImage(true) })
			img("bitmap object, inverted", func() image.Image { return obj().ConvertToImage(false) })
			by("bits", func() []byte { return obj().GetImgSlice() })
			by("RGB export", func() []byte { return obj().GetImgSliceRGB() })
			by("grey export", func() []byte { return obj().GetImgSliceGray() })
			monos = append(monos, keep.Call{Name: "bitmap " + n, Do: func() any { return obj() }})
			monos = append(monos, keep.Call{Name: "bitmap from image " + n, Do: func() any {
				m := &gfx.MonoImg{}
				m.CreateFromImage(obj().ConvertToImage(false))
				return m
			}})
			monos = append(monos, keep.Call{Name: "new bitmap " + n, Do: func() any { m := &gfx.MonoImg{}; m.NewImage(w, h); return m }})
		}
	}
	keep.Pairs(c, keep.Image(), images)
	keep.Pairs(c, keep.Bytes(), data)
	keep.Pairs(c, keep.Mono(), monos)
}

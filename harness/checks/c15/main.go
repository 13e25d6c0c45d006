// C15: the composite panel SVG. Base documents, topologies, availability maps and
// display options are enumerated; the generated document is read back by an
// independent reader and compared, element by element, with what the model says
// must be there. Broken base documents are enumerated as all truncations and
// single-character edits of the valid ones and all short strings of markup.
package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	lib "github.com/SKAARHOJ/rawpanel-lib/topology"

	xmldom "github.com/subchen/go-xmldom"
	"verif.local/harness/keep"
	"verif.local/harness/topo"
	"verif.local/harness/vk"
)

var c *vk.Check
var real *os.File

func main() {
	real = os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null // the library prints warnings
	c = vk.New("C15")
	body()
	os.Stdout = real
	os.Exit(c.Finish())
}

func phase(n string, f func()) {
	o := os.Stdout
	os.Stdout = real
	defer func() { os.Stdout = o }()
	c.Phase(n, func() { os.Stdout = o; f(); os.Stdout = real })
}

func body() {
	c.Assume("Component ids are distinct, sizes are not negative and the base document has no ids of the form HWc<n>.",
		"The base SVG uses SVG as its default namespace and entities known to an XML reader without a document type; comments and processing instructions are not content; white space around text is not content.",
		"Geometry, identity, rotation, texts and sub-shape styles are asserted; colours and fonts are not.")
	c.Limit(30 * time.Second)
	phase("component shapes x labels x options", shapes)
	phase("positions and overrides", positions)
	phase("base documents x maps x component lists", documents)
	phase("many components, shared types, large base documents", many)
	phase("results kept and changed by the caller: all pairs of calls", kept)
	phase("broken base documents", broken)
}

// --- independent reader ----------------------------------------------------

type elem struct {
	name  string
	attrs map[string]string
	kids  []*elem
	text  string // trimmed, in document order, all pieces
	seq   string // order of text pieces and children
}

// read parses strictly: one root, matching tags, no repeated attribute, declared prefixes.
func read(s string) (*elem, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	var root *elem
	var stack []*elem
	ns := []map[string]bool{{"": true, "xml": true, "xmlns": true}}
	qual := func(n xml.Name) string {
		if n.Space != "" {
			return n.Space + ":" + n.Local
		}
		return n.Local
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			e := &elem{name: qual(t.Name), attrs: map[string]string{}}
			scope := map[string]bool{}
			for k := range ns[len(ns)-1] {
				scope[k] = true
			}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" {
					scope[a.Name.Local] = true
				}
			}
			for _, a := range t.Attr {
				q := qual(a.Name)
				if _, dup := e.attrs[q]; dup {
					return nil, fmt.Errorf("attribute %s repeated on <%s>", q, e.name)
				}
				if !scope[a.Name.Space] {
					return nil, fmt.Errorf("prefix of %s is not declared", q)
				}
				e.attrs[q] = a.Value
			}
			if !scope[t.Name.Space] {
				return nil, fmt.Errorf("prefix of <%s> is not declared", e.name)
			}
			if len(stack) == 0 {
				if root != nil {
					return nil, fmt.Errorf("two root elements")
				}
				root = e
			} else {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, e)
				p.seq += "<" + e.name + ">"
			}
			stack = append(stack, e)
			ns = append(ns, scope)
		case xml.EndElement:
			if len(stack) == 0 || stack[len(stack)-1].name != qual(t.Name) {
				return nil, fmt.Errorf("unexpected </%s>", qual(t.Name))
			}
			stack = stack[:len(stack)-1]
			ns = ns[:len(ns)-1]
		case xml.CharData:
			w := strings.TrimSpace(string(t))
			if len(stack) == 0 {
				if w != "" {
					return nil, fmt.Errorf("text outside the root")
				}
				continue
			}
			e := stack[len(stack)-1]
			e.text += string(t)
			if w != "" {
				e.seq += w
			}
		}
	}
	if len(stack) != 0 || root == nil {
		return nil, fmt.Errorf("incomplete document")
	}
	return root, nil
}

func norm(s string) string { return strings.Join(strings.Fields(s), " ") }

// same compares two trees; n limits the children compared (-1: all must match).
func same(a, b *elem, n int) string {
	if a.name != b.name {
		return fmt.Sprintf("element <%s> became <%s>", a.name, b.name)
	}
	if len(a.attrs) != len(b.attrs) {
		return fmt.Sprintf("attributes of <%s>: %v became %v", a.name, a.attrs, b.attrs)
	}
	for k, v := range a.attrs {
		if w, ok := b.attrs[k]; !ok || w != v {
			return fmt.Sprintf("attribute %s of <%s>: %q became %q", k, a.name, v, w)
		}
	}
	if norm(a.text) != norm(b.text) {
		return fmt.Sprintf("text of <%s>: %q became %q", a.name, norm(a.text), norm(b.text))
	}
	mixed := ""
	if n < 0 {
		if len(a.kids) != len(b.kids) {
			return fmt.Sprintf("<%s> had %d children and has %d", a.name, len(a.kids), len(b.kids))
		}
		if a.seq != b.seq {
			// the recorded finding: the texts of the element, joined, after its children
			known := ""
			for _, k := range a.kids {
				known += "<" + k.name + ">"
			}
			if b.seq != known+strings.TrimSpace(a.text) {
				return fmt.Sprintf("content of <%s>: order %q became %q", a.name, a.seq, b.seq)
			}
			mixed = fmt.Sprintf("mixed content of <%s>: order %q became %q", a.name, a.seq, b.seq)
		}
	} else if len(b.kids) < len(a.kids) {
		return fmt.Sprintf("<%s> lost children", a.name)
	}
	for i := range a.kids {
		if s := same(a.kids[i], b.kids[i], -1); s != "" {
			if !strings.HasPrefix(s, "mixed content") {
				return s
			}
			mixed = s
		}
	}
	return mixed
}

// --- model -------------------------------------------------------------------

type opts struct{ labels, ids, types, sizes bool }

// want lists the drawn elements of one component in canonical text.
func want(x *topo.Comp, d topo.Def, o opts) []string {
	var out []string
	rot := func(r float32) string {
		if r == 0 {
			return ""
		}
		return fmt.Sprintf(" rot %.3f@%d,%d", r, x.X, x.Y)
	}
	id := fmt.Sprintf(" id=HWc%d", x.Id)
	if d.H > 0 {
		out = append(out, fmt.Sprintf("rect %d,%d %dx%d", x.X-d.W/2, x.Y-d.H/2, d.W, d.H)+rot(d.Rotate)+id)
	} else {
		out = append(out, fmt.Sprintf("circle %d,%d r%d", x.X, x.Y, d.W/2)+rot(d.Rotate)+id)
	}
	for _, s := range d.Sub {
		extra := ""
		if s.Rx != 0 {
			extra += fmt.Sprintf(" rx%d", s.Rx)
		}
		if s.Ry != 0 {
			extra += fmt.Sprintf(" ry%d", s.Ry)
		}
		if s.Style != "" {
			extra += " style=" + s.Style
		}
		switch s.Obj {
		case "r":
			out = append(out, fmt.Sprintf("subrect %d,%d %dx%d", x.X+s.X, x.Y+s.Y, s.W, s.H)+rot(d.Rotate)+extra)
		case "c":
			out = append(out, fmt.Sprintf("subcircle %d,%d r%d", x.X+s.X, x.Y+s.Y, s.R)+rot(d.Rotate)+extra)
		}
	}
	render := map[string]bool{}
	for _, r := range strings.Split(d.Render, ",") {
		render[r] = true
	}
	text := func(px, py int, s string, r float32) {
		s = clean(s)
		if s != "" {
			out = append(out, fmt.Sprintf("text %d,%d %q", px, py, s)+rot(r))
		}
	}
	if o.labels || render["txt"] {
		l := strings.Split(x.Txt, "|")
		n := 1
		if len(l) > 1 && l[1] != "" {
			n = 2
		}
		r := d.Rotate
		if d.H > 2*d.W {
			r += 90
		}
		for i := 0; i < n; i++ {
			text(x.X, x.Y+27+i*30-n*15, l[i], r)
		}
	}
	ext := d.H
	if d.H == 0 {
		ext = d.W
	}
	if o.types {
		text(x.X, x.Y-ext/2-2, fmt.Sprintf("[TYPE=%d]", x.Type), d.Rotate)
	}
	if o.sizes && d.Disp != nil {
		px, py := x.X, x.Y-ext/2-2
		if i := d.Disp.Subidx; i >= 0 && i < len(d.Sub) {
			px, py = x.X+d.Sub[i].X+d.Sub[i].W/2, x.Y+d.Sub[i].Y+d.Sub[i].H/2
		}
		s := fmt.Sprintf("%dx%d", d.Disp.W, d.Disp.H)
		if d.Disp.Type != "" {
			s += " " + d.Disp.Type
		}
		text(px, py, s, d.Rotate)
	}
	if o.ids || render["hwcid"] {
		px := x.X
		if d.H > 0 {
			px = x.X - (d.W/2 - 4)
		}
		text(px, x.Y-ext/2+20, fmt.Sprint(x.Id), d.Rotate)
	}
	return out
}

// clean is what survives of a text in an XML document.
func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd || r >= 0x10000 && r <= 0x10ffff {
			b.WriteRune(r)
		} else {
			b.WriteRune(0xfffd)
		}
	}
	return norm(b.String())
}

// describe turns a generated element into the model's text; sub-shapes are the
// shapes without identity.
func describe(e *elem) string {
	at := func(k string) string { return e.attrs[k] }
	rot := ""
	if t, ok := e.attrs["transform"]; ok {
		var a float64
		var x, y int
		t = strings.TrimSpace(t)
		if !strings.HasPrefix(t, "rotate(") || !strings.HasSuffix(t, ")") {
			return "transform " + t
		}
		f := strings.FieldsFunc(t[7:len(t)-1], func(r rune) bool { return r == ' ' || r == ',' })
		if len(f) != 3 {
			return "transform " + t
		}
		a, _ = strconv.ParseFloat(f[0], 64)
		x, _ = strconv.Atoi(f[1])
		y, _ = strconv.Atoi(f[2])
		if a != 0 {
			rot = fmt.Sprintf(" rot %.3f@%d,%d", float32(a), x, y)
		}
	}
	id, has := e.attrs["id"]
	switch e.name {
	case "rect":
		if has {
			return fmt.Sprintf("rect %s,%s %sx%s", at("x"), at("y"), at("width"), at("height")) + rot + " id=" + id
		}
		s := fmt.Sprintf("subrect %s,%s %sx%s", at("x"), at("y"), at("width"), at("height")) + rot
		if v := at("rx"); v != "" {
			s += " rx" + v
		}
		if v := at("ry"); v != "" {
			s += " ry" + v
		}
		if v := at("style"); v != "" {
			s += " style=" + v
		}
		return s
	case "circle":
		if has {
			return fmt.Sprintf("circle %s,%s r%s", at("cx"), at("cy"), at("r")) + rot + " id=" + id
		}
		s := fmt.Sprintf("subcircle %s,%s r%s", at("cx"), at("cy"), at("r")) + rot
		if v := at("rx"); v != "" {
			s += " rx" + v
		}
		if v := at("ry"); v != "" {
			s += " ry" + v
		}
		if v := at("style"); v != "" {
			s += " style=" + v
		}
		return s
	case "text":
		if norm(e.text) == "" && len(e.kids) == 0 {
			return ""
		}
		return fmt.Sprintf("text %s,%s %q", at("x"), at("y"), norm(e.text)) + rot
	}
	return "<" + e.name + ">"
}

// run generates the document of one case and compares.
func run(base string, t *topo.Top, m map[uint32]uint32, o opts, def bool) bool {
	in := func() any {
		return map[string]any{"svg": base, "topology": t, "map": m, "options": fmt.Sprintf("%+v", o)}
	}
	return c.Run(in, func() string {
		j, _ := json.Marshal(t.Lib())
		out := ""
		if def {
			out = lib.GenerateCompositeSVG(string(j), base, m)
		} else {
			doc := lib.GenerateCompositeSVGdoc(string(j), base, m, o.labels, o.ids, o.types, o.sizes)
			if doc == nil {
				return "nothing: no document for a valid base SVG"
			}
			out = doc.XML()
		}
		if out == "" {
			return "nothing: no document for a valid base SVG"
		}
		got, err := read(out)
		if err != nil {
			return fmt.Sprintf("wellformed: the generated document is not well-formed: %v: %s", err, out)
		}
		b, err := read(base)
		if err != nil {
			return fmt.Sprintf("check: base is broken: %v", err)
		}
		mixed := ""
		if s := same(b, got, len(b.kids)); s != "" {
			if !strings.HasPrefix(s, "mixed content") {
				return "base: " + s
			}
			mixed = "mixed: " + s
		}
		var exp, have []string
		for i := range t.HWc {
			x := &t.HWc[i]
			if m != nil && m[x.Id] == 0 {
				continue
			}
			exp = append(exp, want(x, topo.Resolve(t.Types[x.Type], x.Over), o)...)
		}
		for _, e := range got.kids[len(b.kids):] {
			if s := describe(e); s != "" {
				have = append(have, s)
			}
			if len(e.kids) > 0 {
				return "extra: a generated element has children"
			}
		}
		a, h := append([]string{}, exp...), append([]string{}, have...)
		sort.Strings(a)
		sort.Strings(h)
		for i := 0; i < len(a) || i < len(h); i++ {
			switch {
			case i >= len(h) || i < len(a) && a[i] < h[i]:
				return fmt.Sprintf("missing %s: %q is not drawn; document has %q", kind(a[i]), a[i], have)
			case i >= len(a) || h[i] < a[i]:
				return fmt.Sprintf("extra %s: %q should not be there; want %q", kind(h[i]), h[i], exp)
			}
		}
		c.Trace(1)
		c.Trans(len(a) + 1)
		c.State(base + "\x00" + strings.Join(a, "\x00"))
		return mixed
	})
}

func kind(s string) string { return strings.SplitN(s, " ", 2)[0] }

const simple = `<svg xmlns="http://www.w3.org/2000/svg" width="100" height="50"><rect x="1" y="2" width="3" height="4"/></svg>`

var labels = []string{"", "A", "A|B", "A|", "|B", "A|B|C", "|", "<&>\"'", "]]>", "æ日😀", "a\x01b", "x < y|&amp;", " pad |\ttab"}
var subs = [][]topo.Sub{
	nil,
	{{Obj: "r", X: -3, Y: 4, W: 10, H: 20}},
	{{Obj: "c", X: 5, Y: -6, R: 7}},
	{{Obj: "d", X: 1, Y: 2, W: 30, H: 40, R: 5}},
	{{Obj: "r", X: 0, Y: 0, W: 0, H: 5, Rx: 3, Ry: 4, Style: "fill:\"red\"&<"}, {Obj: "d", X: 7, Y: 7, W: 9, H: 11}, {Obj: "c", X: 0, Y: 0, R: 0, Style: "a:b"}, {Obj: "r", X: 1, Y: 1, W: 1, H: 1}},
	{{Obj: "", X: 1}, {Obj: "x", X: 2}},
	{{Obj: "r", X: 1, Y: 1, W: 1, H: 1}, {Obj: "r", X: 1, Y: 1, W: 1, H: 1}},
}
var renders = []string{"", "txt", "hwcid", "txt,hwcid", "invtxt,txt", "hwcid,invtxt"}

func shapes() {
	ws, hs := []int{0, 1, 7, 120}, []int{0, 1, 15, 81, 300}
	rots := []float32{0, 45.5, -90, 0.125}
	disps := []*topo.Disp{nil, {W: 64, H: 32}, {W: 8, H: 2, Type: "text", Subidx: 1}, {W: 1, H: 1, Subidx: -1}, {W: 5, H: 5, Subidx: 99, Type: "gray"}}
	type job struct {
		w, h int
		r    float32
	}
	var jobs []job
	for _, w := range ws {
		for _, h := range hs {
			for _, r := range rots {
				jobs = append(jobs, job{w, h, r})
			}
		}
	}
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		for si, s := range subs {
			for li, l := range labels {
				for ri, r := range renders {
					d := topo.Def{W: j.w, H: j.h, Rotate: j.r, Sub: s, Render: r, Disp: disps[(si+li+ri)%len(disps)]}
					t := &topo.Top{HWc: []topo.Comp{{Id: 7, X: 100, Y: 60, Txt: l, Type: 3}}, Types: map[uint32]topo.Def{3: d}}
					if !c.Thorough() && (li > 6 && ri > 1) {
						continue
					}
					for f := 0; f < 16; f++ {
						if f >= 4 && (li > 2 || ri > 0) && !c.Thorough() {
							break
						}
						run(simple, t, nil, opts{f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0}, false)
					}
					run(simple, t, nil, opts{labels: true, ids: true}, true)
					if si == 4 && li == 2 && c.WantSample("case") {
						c.Sample("case", t)
					}
				}
			}
		}
		// Render options the generator does not know have no effect.
		for _, r := range []string{"square", "circle", "rect", "round", "rounded", "ellipse", "hidden", "hide", "none", "noshape", "nosub", "nolabel", "notxt", "noid", "txt90", "TXT", " txt", "txt ", "hwcid ", "invtxt", "type", "disp", "flip", "rotate", "center", "left", "small", "x,y", ",", "txt,square,hwcid"} {
			for _, s := range [][]topo.Sub{nil, subs[4]} {
				for f := 0; f < 4; f++ {
					t := &topo.Top{HWc: []topo.Comp{{Id: 7, X: 100, Y: 60, Txt: "A|B", Type: 3}}, Types: map[uint32]topo.Def{3: {W: j.w, H: j.h, Rotate: j.r, Sub: s, Render: r}}}
					run(simple, t, nil, opts{labels: f&1 != 0, ids: f&2 != 0}, false)
				}
			}
		}
		for _, dp := range disps {
			for _, s := range subs {
				t := &topo.Top{HWc: []topo.Comp{{Id: 7, X: 100, Y: 60, Txt: "L", Type: 3}}, Types: map[uint32]topo.Def{3: {W: j.w, H: j.h, Rotate: j.r, Sub: s, Disp: dp}}}
				for f := 0; f < 16; f++ {
					run(simple, t, nil, opts{f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0}, false)
				}
			}
		}
	})
}

func positions() {
	xs := []int{-1000, -5, 0, 1, 100, 101, 65535, math.MaxInt32}
	sizes := [][2]int{{0, 0}, {9, 0}, {10, 0}, {9, 12}, {10, 13}, {3, 99}}
	c.Parallel(len(xs), func(i int) {
		for _, y := range xs {
			for _, s := range sizes {
				for _, o := range sizes {
					for rm := 0; rm < 4; rm++ {
						base, over := topo.Def{W: s[0], H: s[1]}, &topo.Def{W: o[0], H: o[1]}
						if rm&1 != 0 {
							base.Rotate, base.Sub = 30, subs[4]
						}
						if rm&2 != 0 {
							over.Rotate, over.Sub, over.Render = 12.25, subs[2], "txt"
						}
						for _, id := range []uint32{0, 1, 4294967295} {
							for _, ty := range []uint32{4, 0, 99} {
								t := &topo.Top{HWc: []topo.Comp{{Id: id, X: xs[i], Y: y, Txt: "A|B", Type: ty, Over: over}}, Types: map[uint32]topo.Def{4: base}}
								run(simple, t, nil, opts{labels: true, ids: true}, true)
							}
						}
					}
				}
			}
		}
	})
}

var bases = []string{
	simple,
	`<svg/>`,
	`<svg></svg>`,
	`<?xml version="1.0" encoding="UTF-8"?>` + "\n" + simple,
	`<?xml version="1.0" encoding="UTF-8" standalone="no"?><!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">` + "\n" + simple,
	`<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 10 20"><g id="a" transform="translate(1,2)"><path d="M 1 2&#xA;L 3 4"/><g><rect id="b"/></g></g><circle cx="1"/></svg>`,
	`<svg xmlns="http://www.w3.org/2000/svg" title="&lt;&amp;&quot;'&gt;"><text x="1">a &lt; b &amp; c</text><desc>日本 😀</desc></svg>`,
	`<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"><defs><g id="k"/></defs><use xlink:href="#k" href="#j" x="4"/></svg>`,
	`<svg xmlns="http://www.w3.org/2000/svg" xmlns:inkscape="http://www.inkscape.org/namespaces/inkscape" xmlns:svg="http://www.w3.org/2000/svg" version="1.1" inkscape:version="0.92"><inkscape:view inkscape:zoom="2" zoom="3"/><svg:rect width="1"/><g xml:space="preserve" space="x"/></svg>`,
	"<svg xmlns=\"http://www.w3.org/2000/svg\"><style type=\"text/css\">\n  <![CDATA[ .a > .b { fill: red } ]]>\n</style><rect class=\"a\"/></svg>",
	"<svg xmlns=\"http://www.w3.org/2000/svg\"><style>.x{fill:blue}<!-- c -->.y{fill:green}</style></svg>",
	`<!-- before --><svg xmlns="http://www.w3.org/2000/svg"><!-- in --><rect x="5"/><!-- after --></svg><!-- end -->`,
	"\n <svg xmlns='http://www.w3.org/2000/svg' a='\"' b=\"'\">\n\t<g>\n\t\t<rect/>\n\t</g>\n</svg>\n",
	`<svg xmlns="http://www.w3.org/2000/svg"><text x="1">before<tspan>in</tspan>after</text></svg>`,
}

func documents() {
	types := map[uint32]topo.Def{1: {W: 10}, 2: {W: 20, H: 30, Sub: subs[4]}, 3: {W: 5, H: 50, Rotate: 10}}
	ids := []uint32{1, 5, 4294967295}
	var tops []*topo.Top
	for n := 0; n <= 3; n++ {
		tot := 1
		for i := 0; i < n; i++ {
			tot *= 3
		}
		for k := 0; k < tot; k++ {
			t := &topo.Top{Title: "t", Types: types}
			for i, v := 0, k; i < n; i, v = i+1, v/3 {
				t.HWc = append(t.HWc, topo.Comp{Id: ids[i], X: 10 * i, Y: 7, Txt: fmt.Sprintf("L%d|<%d>", i, v%3), Type: uint32(v%3 + 1)})
			}
			tops = append(tops, t)
		}
	}
	var maps []map[uint32]uint32
	maps = append(maps, nil)
	for k := 0; k < 4*4*4; k++ {
		m := map[uint32]uint32{}
		for i, v := 0, k; i < 3; i, v = i+1, v/4 {
			if v%4 > 0 {
				m[ids[i]] = []uint32{0, 0, 1, 9}[v%4]
			}
		}
		maps = append(maps, m)
		if k%8 == 0 {
			mm := map[uint32]uint32{77: 1, 78: 0}
			for a, b := range m {
				mm[a] = b
			}
			maps = append(maps, mm)
		}
	}
	c.Parallel(len(bases)*len(tops), func(i int) {
		b, t := bases[i/len(tops)], tops[i%len(tops)]
		for mi, m := range maps {
			run(b, t, m, opts{labels: true, ids: true}, true)
			if mi%4 == 0 {
				run(b, t, m, opts{}, false)
			}
		}
	})
	c.Sample("base", bases[8])
}

// many: components that share types, with and without overrides, in large
// topologies and base documents; map values of every width.
func many() {
	types := map[uint32]topo.Def{1: {W: 10, Render: "txt"}, 2: {W: 20, H: 30, Sub: subs[4], Rotate: 5}, 3: {W: 5, H: 50, Rotate: 10, Disp: &topo.Disp{W: 4, H: 4}}, 4: {W: 9, H: 9, Sub: subs[1]}}
	overs := []*topo.Def{nil, {W: 33}, {H: 44}, {Sub: subs[2]}, {Rotate: -3, Render: "hwcid"}, {Disp: &topo.Disp{W: 7, H: 7, Subidx: -1}}, {W: 1, H: 1, Sub: subs[6], Rotate: 90, Render: "txt,hwcid"}}
	// all pairs of components over one type, in all override combinations
	c.Parallel(4*len(overs)*len(overs), func(i int) {
		ty, a, b := uint32(i%4+1), i/4%len(overs), i/4/len(overs)
		for d := range overs {
			t := &topo.Top{Types: types, HWc: []topo.Comp{{Id: 3, X: 50, Y: 60, Txt: "same|two", Type: ty, Over: overs[a]}, {Id: 1, X: 50, Y: 60, Txt: "same|two", Type: ty, Over: overs[b]}, {Id: 2, X: 9, Y: 8, Txt: "", Type: uint32(d%4 + 1), Over: overs[d]}}}
			for f := 0; f < 16; f++ {
				run(simple, t, nil, opts{f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0}, false)
			}
			run(simple, t, map[uint32]uint32{1: 1, 2: 3}, opts{labels: true, ids: true}, true)
		}
	})
	values := []uint32{0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	c.Parallel(len(values)*len(values), func(i int) {
		t := &topo.Top{Types: types, HWc: []topo.Comp{{Id: 256, X: 50, Y: 60, Txt: "a", Type: 1}, {Id: 65536, X: 50, Y: 60, Txt: "b", Type: 2}, {Id: 1 << 31, X: 9, Y: 8, Txt: "c", Type: 4}}}
		a, b := values[i%len(values)], values[i/len(values)]
		run(simple, t, map[uint32]uint32{256: a, 65536: b}, opts{labels: true, ids: true}, true)
		run(simple, t, map[uint32]uint32{256: a, 1 << 31: b, 0: 1}, opts{}, false)
	})
	sizes := []int{4, 10, 64, 100, 255, 256, 257, 300, 1000}
	c.Parallel(len(sizes)*8, func(i int) {
		n, v := sizes[i/8], i%8
		t := &topo.Top{Title: "big", Types: types}
		m := map[uint32]uint32{}
		for k := 0; k < n; k++ {
			id := uint32(k + 1)
			switch v & 3 {
			case 1:
				id = uint32(n - k)
			case 2:
				id = uint32(k*131 + 7)
			case 3:
				id = uint32((k*7919)%(n*8) + 1)
			}
			if t.Find(id) != nil {
				continue
			}
			t.HWc = append(t.HWc, topo.Comp{Id: id, X: k % 17 * 10, Y: k / 17 * 10, Txt: fmt.Sprintf("L%d|%d", k%5, k%3), Type: uint32(k%4 + 1), Over: overs[k%len(overs)]})
			if k%3 != 1 {
				m[id] = uint32(k % 4)
			}
		}
		if v&4 == 0 {
			m = nil
		}
		run(bases[v%len(bases)], t, m, opts{labels: true, ids: true}, true)
		run(simple, t, m, opts{types: true, sizes: true}, false)
	})
	// large base documents
	big := func(n, depth, text int) string {
		var b strings.Builder
		b.WriteString(`<svg xmlns="http://www.w3.org/2000/svg" id="root">`)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, `<rect id="r%d" x="%d"/>`, i, i)
		}
		for i := 0; i < depth; i++ {
			fmt.Fprintf(&b, `<g id="g%d">`, i)
		}
		b.WriteString("<path d=\"" + strings.Repeat("M 1 2 ", text/6) + "\"/><desc>" + strings.Repeat("text &amp; ", text/11) + "</desc>")
		b.WriteString(strings.Repeat("</g>", depth) + "</svg>")
		return b.String()
	}
	t := &topo.Top{Types: types, HWc: []topo.Comp{{Id: 1, X: 50, Y: 60, Txt: "a", Type: 1}, {Id: 2, X: 50, Y: 60, Txt: "b", Type: 2}}}
	shapes := [][3]int{{1, 1, 20}, {10, 10, 4096}, {100, 3, 65536}, {1000, 1, 10}, {5, 100, 10}, {5, 1000, 300000}, {3000, 20, 1000}}
	c.Parallel(len(shapes), func(i int) {
		b := big(shapes[i][0], shapes[i][1], shapes[i][2])
		run(b, t, nil, opts{labels: true, ids: true}, true)
		run(b, t, map[uint32]uint32{2: 1}, opts{}, false)
	})
	// long labels, many sub-elements
	c.Parallel(300, func(i int) {
		n := i
		if n > 150 {
			n = (i-150)*(i-150) + 150
		}
		l := []rune(strings.Repeat("Abc defgh æ<&>\" ", n/16+1))[:n]
		for n > 0 && l[n-1] == ' ' {
			l[n-1] = 'x'
		}
		for v, txt := range []string{string(l), string(l) + "|two", "one|" + string(l), string(l) + "|" + string(l) + "|" + string(l)} {
			t := &topo.Top{HWc: []topo.Comp{{Id: uint32(n + 1), X: 100, Y: 60, Txt: txt, Type: uint32(v%2 + 1)}}, Types: map[uint32]topo.Def{1: {W: 10}, 2: {W: 20, H: 30}}}
			run(simple, t, nil, opts{labels: true, ids: true}, true)
		}
		if n > 2000 {
			n = 2000
		}
		var s []topo.Sub
		for k := 0; k < n; k++ {
			s = append(s, topo.Sub{Obj: []string{"r", "c", "d", "r"}[k%4], X: k - 9, Y: -k, W: k + 1, H: k % 9, R: k % 12, Rx: k % 3, Ry: k % 2, Idx: k})
		}
		d := topo.Def{W: n, H: n % 3 * n, Sub: s, Rotate: float32(n % 2)}
		t := &topo.Top{HWc: []topo.Comp{{Id: 1, X: 100, Y: 60, Txt: "a", Type: 1}, {Id: 2, X: n, Y: -n, Type: 2, Over: &d}}, Types: map[uint32]topo.Def{1: d, 2: {W: 5}}}
		run(simple, t, nil, opts{labels: true, ids: true}, true)
	})
}

// kept: generated documents belong to the caller.
func kept() {
	k := keep.Kind{Snap: func(r any) string { return r.(*xmldom.Document).XML() }, Spoil: func(r any) {
		d := r.(*xmldom.Document)
		var spoil func(n *xmldom.Node)
		spoil = func(n *xmldom.Node) {
			for _, a := range n.Attributes {
				a.Value += "~"
			}
			n.Name += "x"
			n.Text += "~"
			for _, x := range n.Children {
				spoil(x)
			}
			n.SetAttributeValue("spoilt", "1")
			n.CreateNode("spoilt")
		}
		spoil(d.Root)
	}}
	types := map[uint32]topo.Def{1: {W: 10, Render: "txt"}, 2: {W: 20, H: 30, Sub: subs[4], Rotate: 5}}
	var calls, texts []keep.Call
	for i := 0; i < 48; i++ {
		t := &topo.Top{Types: types, HWc: []topo.Comp{{Id: 1, X: 50, Y: i % 3, Txt: "a|b", Type: 1}, {Id: 2, X: 50, Y: 60, Txt: "b", Type: 2}}}
		j, _ := json.Marshal(t.Lib())
		base, f := bases[i/3%len(bases)], i%16
		m := []map[uint32]uint32{nil, {1: 1}, {1: 0, 2: 4}, {1: 3, 2: 0}}[i/5%4]
		calls = append(calls, keep.Call{Name: fmt.Sprintf("document %d, %s, map %v, options %d", i, base, m, f), Do: func() any {
			return lib.GenerateCompositeSVGdoc(string(j), base, m, f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0)
		}})
		texts = append(texts, keep.Call{Name: fmt.Sprintf("text %d, %s, map %v", i, base, m), Do: func() any { return []string{lib.GenerateCompositeSVG(string(j), base, m)} }})
	}
	keep.Pairs(c, k, calls)
	keep.Pairs(c, keep.Lines(), texts)
}

// broken: no panic, and an empty result exactly where an XML reader finds no document.
func broken() {
	t := &topo.Top{HWc: []topo.Comp{{Id: 1, Type: 1, Txt: "a"}}, Types: map[uint32]topo.Def{1: {W: 10}}}
	j, _ := json.Marshal(t.Lib())
	one := func(s string) {
		c.Run(s, func() string {
			out := lib.GenerateCompositeSVG(string(j), s, nil)
			c.Trans(1)
			c.Trace(1)
			c.State("broken" + s)
			if !parses(s) {
				if out != "" {
					return fmt.Sprintf("unparsable: a result for an unparsable base SVG: %q", out)
				}
				if d := lib.GenerateCompositeSVGdoc(string(j), s, nil, true, true, true, true); d != nil {
					return "unparsable: a document for an unparsable base SVG"
				}
				return ""
			}
			if _, err := read(s); err == nil { // a whole, namespace-correct document
				if out == "" {
					return "nothing: no document for a valid base SVG"
				}
				if _, err := read(out); err != nil {
					return fmt.Sprintf("wellformed: %v: %s", err, out)
				}
			}
			return ""
		})
	}
	var list []string
	for _, b := range bases {
		for i := 0; i <= len(b); i++ {
			list = append(list, b[:i])
			if i < len(b) {
				list = append(list, b[:i]+b[i+1:], b[i:])
				for _, x := range []string{"<", ">", "&", "\"", "/", "\x00", "\xff", "<a>", "</svg>", "<?p i?>", "<!-- x -->", "x"} {
					list = append(list, b[:i]+x+b[i:])
				}
			}
		}
	}
	al := []string{"<", ">", "/", "a", "\"", "=", "!", " ", "?", "&", ";", "-", "[", "]", ":", "\n"}
	max := vk.Pick(c, 4, 5)
	var gen func(p string, n int)
	gen = func(p string, n int) {
		list = append(list, p)
		if n == max {
			return
		}
		for _, a := range al {
			gen(p+a, n+1)
		}
	}
	gen("", 0)
	// longer ones out of whole tokens
	toks := []string{"<a>", "</a>", "<b/>", "x", "<!DOCTYPE a>", "<?xml version=\"1.0\"?>", "<!--c-->", "<![CDATA[y]]>", "<a:b c:d='1' d='2'>", "</a:b>", "&lt;", "&x;"}
	maxT := vk.Pick(c, 4, 5)
	var genT func(p string, n int)
	genT = func(p string, n int) {
		list = append(list, p)
		if n == maxT {
			return
		}
		for _, a := range toks {
			genT(p+a, n+1)
		}
	}
	genT("", 0)
	c.Parallel(len(list), func(i int) { one(list[i]) })
	c.Sample("broken", list[len(list)/3])
}

// parses: an XML reader reaches the end of the text and has seen an element.
func parses(s string) bool {
	d := xml.NewDecoder(strings.NewReader(s))
	root := false
	for {
		t, err := d.Token()
		if err == io.EOF {
			return root
		}
		if err != nil {
			return false
		}
		if _, ok := t.(xml.StartElement); ok {
			root = true
		}
	}
}

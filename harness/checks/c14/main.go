// C14: topology transformations. Histories of transformations (serialise and
// parse, renumber sequentially or randomly, remove section markers) are executed
// on the library for every small topology, every map iteration order and every
// short sequence of random draws (both owned by the explorer through an overlay
// of the standard library), and compared with the model after every step.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"time"
	"unicode/utf8"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	lib "github.com/SKAARHOJ/rawpanel-lib/topology"

	"verif.local/harness/keep"
	"verif.local/harness/topo"
	"verif.local/harness/vk"
)

var c *vk.Check

func main() {
	// The library prints warnings to the standard output.
	out := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	real = out
	os.Stdout = null
	k := vk.New("C14")
	c = k
	body()
	os.Stdout = out
	os.Exit(c.Finish())
}

var real *os.File

func phase(n string, f func()) {
	os.Stdout = real
	c.Phase(n, func() {
		null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		o := os.Stdout
		os.Stdout = null
		f()
		os.Stdout = o
	})
}

func body() {
	c.Assume("Components refer to type 0 (disabled) or to an indexed type, and the index has no key 0, as Topology.Verify demands; section markers (type 250) may be unindexed for CleanSections.",
		"Strings that are not valid UTF-8 and rotations JSON cannot carry (NaN, infinities) have no JSON form; for invalid UTF-8 only the fixpoint is asserted.",
		"Equality does not distinguish nil from empty lists.")
	c.Limit(30 * time.Second)
	phase("round trip: presence of attributes", presence)
	phase("round trip: values", values)
	phase("results kept and changed by the caller: all pairs of calls", kept)
	phase("removing section markers", sections)
	phase("renumbering in sequence", sequential)
	phase("renumbering at random", random)
	phase("histories of transformations", histories)
}

// wire is an independent reading of the documented JSON form.
type wireDef struct {
	W      int     `json:"w"`
	H      int     `json:"h"`
	Out    string  `json:"out"`
	In     string  `json:"in"`
	Desc   string  `json:"desc"`
	Ext    string  `json:"ext"`
	Subidx int     `json:"subidx"`
	Rotate float32 `json:"rotate"`
	Disp   *struct {
		W      int    `json:"w"`
		H      int    `json:"h"`
		Subidx int    `json:"subidx"`
		Type   string `json:"type"`
		Shrink int    `json:"shrink"`
		Border int    `json:"txtborder"`
	} `json:"disp"`
	Sub []struct {
		Obj   string `json:"_"`
		X     int    `json:"_x"`
		Y     int    `json:"_y"`
		W     int    `json:"_w"`
		H     int    `json:"_h"`
		R     int    `json:"r"`
		Rx    int    `json:"rx"`
		Ry    int    `json:"ry"`
		Style string `json:"style"`
		Idx   int    `json:"_idx"`
	} `json:"sub"`
	Render string `json:"render"`
}

func (w *wireDef) def() topo.Def {
	d := topo.Def{W: w.W, H: w.H, Out: w.Out, In: w.In, Desc: w.Desc, Ext: w.Ext, Subidx: w.Subidx, Rotate: w.Rotate, Render: w.Render}
	if w.Disp != nil {
		d.Disp = &topo.Disp{W: w.Disp.W, H: w.Disp.H, Subidx: w.Disp.Subidx, Type: w.Disp.Type, Shrink: w.Disp.Shrink, Border: w.Disp.Border}
	}
	for _, s := range w.Sub {
		d.Sub = append(d.Sub, topo.Sub{Obj: s.Obj, X: s.X, Y: s.Y, W: s.W, H: s.H, R: s.R, Rx: s.Rx, Ry: s.Ry, Style: s.Style, Idx: s.Idx})
	}
	return d
}

type wireTop struct {
	Title string `json:"title"`
	HWc   []struct {
		Id     uint32   `json:"id"`
		X      int      `json:"x"`
		Y      int      `json:"y"`
		Txt    string   `json:"txt"`
		Type   uint32   `json:"type"`
		Over   *wireDef `json:"typeOverride"`
		Parent uint32   `json:"UIparent"`
		Yang   uint32   `json:"UIyang"`
	} `json:"HWc"`
	Types map[uint32]*wireDef `json:"typeIndex"`
}

func fromWire(s string) (*topo.Top, error) {
	var w wireTop
	if err := json.Unmarshal([]byte(s), &w); err != nil {
		return nil, err
	}
	t := &topo.Top{Title: w.Title, Types: map[uint32]topo.Def{}}
	for _, x := range w.HWc {
		o := topo.Comp{Id: x.Id, X: x.X, Y: x.Y, Txt: x.Txt, Type: x.Type, Parent: x.Parent, Yang: x.Yang}
		if x.Over != nil {
			d := x.Over.def()
			o.Over = &d
		}
		t.HWc = append(t.HWc, o)
	}
	for k, d := range w.Types {
		t.Types[k] = d.def()
	}
	return t, nil
}

func parse(s string) (*lib.Topology, error) {
	l := &lib.Topology{}
	err := json.Unmarshal([]byte(s), l)
	return l, err
}

// roundTrip checks one topology through both serialisers.
func roundTrip(t *topo.Top, valid bool) string {
	for i, ser := range []func(*lib.Topology) string{(*lib.Topology).ToJSON, (*lib.Topology).JSONstring} {
		l := t.Lib()
		j := ser(l)
		if d := topo.DiffTop(t, topo.TopFromLib(l)); d != "" {
			return fmt.Sprintf("mutated: serialiser %d changed the topology: %s", i, d)
		}
		p, err := parse(j)
		if err != nil {
			return fmt.Sprintf("parse: serialiser %d: %v: %q", i, err, j)
		}
		got := topo.TopFromLib(p)
		if valid {
			if d := topo.DiffTop(t, got); d != "" {
				return fmt.Sprintf("roundtrip %s: serialiser %d: %s: %s", d, i, d, j)
			}
			w, err := fromWire(j)
			if err != nil {
				return fmt.Sprintf("wire: %v", err)
			}
			if d := topo.DiffTop(t, w); d != "" {
				return fmt.Sprintf("wire %s: the JSON form read by its documented names differs: %s", d, j)
			}
		}
		if valid {
			if d := second(t, j); d != "" {
				return d + ": " + j
			}
		}
		j2 := ser(p)
		if valid && j2 != j {
			return fmt.Sprintf("fixpoint: serialiser %d: %s then %s", i, j, j2)
		}
		p2, err := parse(j2)
		if err != nil {
			return "parse: second round: " + err.Error()
		}
		if j3 := ser(p2); j3 != j2 {
			return fmt.Sprintf("fixpoint: serialiser %d: %s then %s", i, j2, j3)
		}
		c.State(j)
		c.Trans(3)
	}
	c.Trace(1)
	return ""
}

// second: the other parser, which knows a subset of the attributes.
func second(t *topo.Top, j string) string {
	p := rawpanel.ParseTopology(j)
	c.Trans(2)
	if d := subset(t, &p); d != "" {
		return "second parser: " + d
	}
	b, err := json.Marshal(&p)
	if err != nil {
		return "second parser: serialise: " + err.Error()
	}
	q := rawpanel.ParseTopology(string(b))
	if d := subset(t, &q); d != "" {
		return "second parser: after a second round: " + d
	}
	if b2, _ := json.Marshal(&q); string(b2) != string(b) {
		return fmt.Sprintf("second parser: fixpoint: %s then %s", b, b2)
	}
	return ""
}

func subset(t *topo.Top, p *rawpanel.Topology) string {
	if len(p.HWc) != len(t.HWc) || len(p.TypeIndex) != len(t.Types) {
		return fmt.Sprintf("%d components and %d types, want %d and %d", len(p.HWc), len(p.TypeIndex), len(t.HWc), len(t.Types))
	}
	for i, x := range t.HWc {
		if g, w := p.HWc[i], (rawpanel.TopologyHWcomponent{Id: x.Id, X: x.X, Y: x.Y, Txt: x.Txt, Type: x.Type}); g != w {
			return fmt.Sprintf("component %d: %+v, want %+v", i, g, w)
		}
	}
	for k, d := range t.Types {
		g, ok := p.TypeIndex[k]
		if !ok {
			return fmt.Sprintf("no type %d", k)
		}
		if g.W != d.W || g.H != d.H || g.In != d.In || g.Out != d.Out || g.Desc != d.Desc || g.Subidx != d.Subidx || len(g.Sub) != len(d.Sub) {
			return fmt.Sprintf("type %d: %+v, want %+v", k, g, d)
		}
		w := rawpanel.TopologyHWcTypeDef_Display{}
		if d.Disp != nil {
			w.W, w.H, w.Subidx = d.Disp.W, d.Disp.H, d.Disp.Subidx
		}
		if g.Disp != w {
			return fmt.Sprintf("type %d: display %+v, want %+v", k, g.Disp, w)
		}
		for i, s := range d.Lib().Sub {
			var want any
			json.Unmarshal([]byte(js(s)), &want)
			if !reflect.DeepEqual(g.Sub[i], want) {
				return fmt.Sprintf("type %d: sub-element %d: %v, want %v", k, i, g.Sub[i], want)
			}
		}
	}
	return ""
}

func comp(id uint32, ty uint32, over *topo.Def) topo.Comp {
	return topo.Comp{Id: id, Type: ty, X: int(id) * 3, Y: -int(id), Txt: fmt.Sprintf("c%d", id), Over: over}
}

func presence() {
	n := 1 << topo.NA
	nv := vk.Pick(c, 2, 3)
	c.Parallel(n*nv, func(i int) {
		m, v := uint(i%n), i/n
		d := topo.DefOf(m, v)
		o := topo.DefOf(uint(n-1)&^m, v)
		for _, t := range []*topo.Top{
			{HWc: []topo.Comp{comp(1, 5, nil)}, Types: map[uint32]topo.Def{5: d}},
			{HWc: []topo.Comp{comp(1, 5, &d)}, Types: map[uint32]topo.Def{5: {}}},
			{Title: "x", HWc: []topo.Comp{comp(1, 5, &d), comp(2, 0, nil), comp(1, 4294967295, &o)}, Types: map[uint32]topo.Def{5: o, 4294967295: d, 7: {}}},
		} {
			c.Run(t, func() string { return roundTrip(t, true) })
		}
		if i == 77 {
			c.Sample("round trip", topo.Top{HWc: []topo.Comp{comp(1, 5, &d)}, Types: map[uint32]topo.Def{5: o}})
		}
	})
	// presence of the component's own fields and of the collections
	for m := 0; m < 1<<9; m++ {
		t := &topo.Top{Types: map[uint32]topo.Def{1: {W: 1}}}
		x := topo.Comp{}
		if m&1 != 0 {
			x.Id = 3
		}
		if m&2 != 0 {
			x.X = -5
		}
		if m&4 != 0 {
			x.Y = 7
		}
		if m&8 != 0 {
			x.Txt = "a|b"
		}
		if m&16 != 0 {
			x.Type = 1
		}
		if m&32 != 0 {
			x.Parent = 9
		}
		if m&64 != 0 {
			x.Yang = 10
		}
		if m&128 != 0 {
			x.Over = &topo.Def{}
		}
		if m&256 != 0 {
			t.Title = "T"
		}
		t.HWc = []topo.Comp{x}
		c.Run(t, func() string { return roundTrip(t, true) })
		t2 := &topo.Top{Title: t.Title, Types: map[uint32]topo.Def{}}
		c.Run(t2, func() string { return roundTrip(t2, true) })
	}
}

func values() {
	strs := []string{"", " ", "a", "\"", "\\", "\\\\\"", "</script>", "<&>", "'", "\x00", "\x01\x1f\x7f", "\t\n\r\b\f", "æøå", "日本", "😀", "\u2028\u2029", "\ufffd", "\ufeff", "{\"a\":1}", "null", "0", "a|b", "\xff", "a\xc3", "\xed\xa0\x80"}
	ints := []int{0, 1, -1, 9, 10, 255, 65535, -65536, 1 << 31, -1 << 31, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64}
	setS := []func(t *topo.Top, s string){
		func(t *topo.Top, s string) { t.Title = s },
		func(t *topo.Top, s string) { t.HWc[0].Txt = s },
		func(t *topo.Top, s string) { d := t.Types[5]; d.Out = s; t.Types[5] = d },
		func(t *topo.Top, s string) { d := t.Types[5]; d.In = s; t.Types[5] = d },
		func(t *topo.Top, s string) { d := t.Types[5]; d.Ext = s; t.Types[5] = d },
		func(t *topo.Top, s string) { d := t.Types[5]; d.Desc = s; t.Types[5] = d },
		func(t *topo.Top, s string) { d := t.Types[5]; d.Render = s; t.Types[5] = d },
		func(t *topo.Top, s string) { t.HWc[0].Over.Disp = &topo.Disp{Type: s} },
		func(t *topo.Top, s string) { t.HWc[0].Over.Sub = []topo.Sub{{Obj: s}, {Style: s}} },
	}
	setI := []func(t *topo.Top, v int){
		func(t *topo.Top, v int) { t.HWc[0].X = v },
		func(t *topo.Top, v int) { t.HWc[0].Y = v },
		func(t *topo.Top, v int) { t.HWc[0].Id = uint32(v) },
		func(t *topo.Top, v int) { t.HWc[0].Parent = uint32(v) },
		func(t *topo.Top, v int) { t.HWc[0].Yang = uint32(v) },
		func(t *topo.Top, v int) {
			if uint32(v) != 0 {
				t.HWc[0].Type = uint32(v)
				t.Types[uint32(v)] = topo.Def{W: 3}
			}
		},
		func(t *topo.Top, v int) { d := t.Types[5]; d.W = v; t.Types[5] = d },
		func(t *topo.Top, v int) { d := t.Types[5]; d.H = v; t.Types[5] = d },
		func(t *topo.Top, v int) { d := t.Types[5]; d.Subidx = v; t.Types[5] = d },
		func(t *topo.Top, v int) {
			t.HWc[0].Over.Disp = &topo.Disp{W: v, H: v, Subidx: v, Shrink: v, Border: v}
		},
		func(t *topo.Top, v int) {
			t.HWc[0].Over.Sub = []topo.Sub{{X: v}, {Y: v}, {W: v}, {H: v}, {R: v}, {Rx: v}, {Ry: v}, {Idx: v}}
		},
	}
	mk := func() *topo.Top {
		o := topo.Def{Ext: "e"}
		return &topo.Top{HWc: []topo.Comp{comp(1, 5, &o)}, Types: map[uint32]topo.Def{5: topo.DefOf(1<<topo.NA-1, 0)}}
	}
	for i := range setS {
		for j := range setS {
			for _, a := range strs {
				for _, b := range strs {
					t := mk()
					setS[i](t, a)
					setS[j](t, b)
					v := utf8.ValidString(a) && utf8.ValidString(b)
					c.Run(t, func() string { return roundTrip(t, v) })
				}
			}
		}
	}
	for i := range setI {
		for j := range setI {
			for _, a := range ints {
				for _, b := range ints {
					t := mk()
					setI[i](t, a)
					setI[j](t, b)
					c.Run(t, func() string { return roundTrip(t, true) })
				}
			}
		}
	}
	// rotations: every exponent, both signs, a spread of mantissas
	nm := vk.Pick(c, 24, 512)
	c.Parallel(255, func(e int) {
		for s := uint32(0); s < 2; s++ {
			for k := 0; k < nm; k++ {
				m := uint32(k) * 0x7fffff / uint32(nm-1)
				f := math.Float32frombits(s<<31 | uint32(e)<<23 | m)
				if f == 0 && s == 1 {
					continue
				}
				t := &topo.Top{HWc: []topo.Comp{comp(1, 5, &topo.Def{Rotate: f})}, Types: map[uint32]topo.Def{5: {Rotate: f}}}
				c.Run(t, func() string { return roundTrip(t, true) })
			}
		}
	})
	// long texts and lists
	c.Parallel(14, func(i int) {
		n := []int{15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097}[i]
		long := ""
		for k := 0; len(long) < n; k++ {
			long += fmt.Sprintf("%d|æ\"<", k)
		}
		var subs []topo.Sub
		for k := 0; k < n; k++ {
			subs = append(subs, topo.Sub{Obj: []string{"r", "c", "d"}[k%3], X: k, Y: -k, W: n - k, H: k % 7, R: k % 5, Rx: k % 3, Ry: k % 2, Style: fmt.Sprint("s", k%4), Idx: k})
		}
		def := topo.Def{W: n, H: n, Out: long, In: long, Ext: long, Desc: long, Render: long, Subidx: n, Disp: &topo.Disp{W: n, H: n, Type: long}, Sub: subs}
		for _, t := range []*topo.Top{
			{Title: long, HWc: []topo.Comp{{Id: uint32(n), Type: 5, Txt: long}}, Types: map[uint32]topo.Def{5: {W: 1}}},
			{HWc: []topo.Comp{{Id: 1, Type: 5}, {Id: 2, Type: 5, Over: &def}}, Types: map[uint32]topo.Def{5: {W: 1}}},
			{HWc: []topo.Comp{{Id: 1, Type: 5}}, Types: map[uint32]topo.Def{5: def, 6: {}}},
		} {
			c.Run(func() any { return map[string]any{"length": n} }, func() string { return roundTrip(t, true) })
		}
		t := &topo.Top{Types: map[uint32]topo.Def{}}
		for k := 1; k <= n; k++ {
			t.Types[uint32(k*3)] = topo.DefOf(uint(k)&(1<<topo.NA-1), k%3)
			t.HWc = append(t.HWc, comp(uint32(k), uint32(k%(n+1)*3), nil))
		}
		c.Run(func() any { return map[string]any{"components": n} }, func() string { return roundTrip(t, true) })
	})
}

// clean is the model of CleanSections.
func clean(t *topo.Top) *topo.Top {
	o := &topo.Top{Title: t.Title, Types: t.Types}
	for _, x := range t.HWc {
		if x.Type != 250 {
			o.HWc = append(o.HWc, x)
		}
	}
	return o
}

func sections() {
	al := []uint32{250, 1, 0, 251, 249}
	max := vk.Pick(c, 7, 8)
	for n := 0; n <= max; n++ {
		tot := 1
		for i := 0; i < n; i++ {
			tot *= len(al)
		}
		c.Parallel(tot, func(k int) {
			t := &topo.Top{Title: "S", Types: map[uint32]topo.Def{1: {W: 1}, 250: {W: 2}, 249: {W: 3}}}
			v := k
			for i := 0; i < n; i++ {
				var over *topo.Def
				if i&1 == 1 {
					over = &topo.Def{Desc: fmt.Sprint(i)}
				}
				t.HWc = append(t.HWc, comp(uint32(i+1), al[v%len(al)], over))
				v /= len(al)
			}
			c.Run(t, func() string {
				l := t.Lib()
				l.CleanSections()
				want := clean(t)
				if d := topo.DiffTop(want, topo.TopFromLib(l)); d != "" {
					return fmt.Sprintf("sections: types %v: %s: %s", typesOf(t), d, l.ToJSON())
				}
				l.CleanSections() // and again: nothing left to remove
				if d := topo.DiffTop(want, topo.TopFromLib(l)); d != "" {
					return fmt.Sprintf("sections: types %v: second call: %s", typesOf(t), d)
				}
				c.Trans(2)
				c.Trace(1)
				return ""
			})
			c.State(fmt.Sprint("sec", typesOf(t)))
		})
	}
	// many markers
	for _, n := range []int{31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000, 1025, 5000} {
		for v := 0; v < 8; v++ {
			t := &topo.Top{Title: "S", Types: map[uint32]topo.Def{1: {W: 1}, 250: {W: 2}, 249: {W: 3}}}
			for i := 0; i < n; i++ {
				ty := uint32(250)
				switch {
				case v == 1 && i%2 == 0, v == 2 && i%3 != 1, v == 3 && i >= n/2, v == 4 && i < n/2, v == 5 && i != n-1, v == 6 && i != 0, v == 7 && i/7%2 == 0:
					ty = []uint32{1, 0, 249}[i%3]
				}
				t.HWc = append(t.HWc, comp(uint32(i+1), ty, nil))
			}
			c.Run(func() any { return map[string]any{"components": n, "pattern": v} }, func() string {
				l := t.Lib()
				l.CleanSections()
				want := clean(t)
				if d := topo.DiffTop(want, topo.TopFromLib(l)); d != "" {
					return fmt.Sprintf("sections: %d components, pattern %d: %s", n, v, d)
				}
				c.Trans(1)
				c.Trace(1)
				return ""
			})
		}
	}
}

func typesOf(t *topo.Top) []uint32 {
	var r []uint32
	for _, x := range t.HWc {
		r = append(r, x.Type)
	}
	return r
}

// libOrdered inserts the types in the given order, which with the iteration
// offset decides the order in which the library sees them.
func libOrdered(t *topo.Top, order []uint32) *lib.Topology {
	l := t.Lib()
	l.TypeIndex = make(map[uint32]lib.TopologyHWcTypeDef)
	for _, k := range order {
		d := t.Types[k]
		l.TypeIndex[k] = d.Lib()
	}
	return l
}

// renumbered checks the result of a renumbering of t.
func renumbered(t *topo.Top, l *lib.Topology, seq bool) string {
	got := topo.TopFromLib(l)
	if len(got.Types) != len(t.Types) {
		return fmt.Sprintf("typecount: %d types became %d", len(t.Types), len(got.Types))
	}
	if seq {
		for i := uint32(1); i <= uint32(len(t.Types)); i++ {
			if _, ok := got.Types[i]; !ok {
				return fmt.Sprintf("sequence: ids are %v, want 1..%d", keys(got), len(t.Types))
			}
		}
	}
	if got.Title != t.Title || len(got.HWc) != len(t.HWc) {
		return "components: the component list changed"
	}
	for i := range t.HWc {
		x, y := t.HWc[i], got.HWc[i]
		was, is := topo.Resolve(t.Types[x.Type], x.Over), topo.Resolve(got.Types[y.Type], y.Over)
		if d := topo.Diff(&was, &is, topo.All); d != "" {
			return fmt.Sprintf("definition: component #%d (type %d, now %d) resolves differently in %s: %s", i, x.Type, y.Type, d, l.ToJSON())
		}
		td := l.GetTypeDefWithOverride(&l.HWc[i])
		lt := topo.FromLib(&td)
		if d := topo.Diff(&was, &lt, topo.All); d != "" {
			return fmt.Sprintf("definition: component #%d: the library resolves %s differently", i, d)
		}
		if (x.Type == 0) != (y.Type == 0) {
			return fmt.Sprintf("disabled: component #%d had type %d and now has type %d", i, x.Type, y.Type)
		}
		y.Type = x.Type
		if !topo.EqComp(&x, &y) {
			return fmt.Sprintf("components: component #%d changed beyond its type id", i)
		}
	}
	// and every type still exists once
	var a, b []string
	for _, d := range t.Types {
		a = append(a, js(d))
	}
	for _, d := range got.Types {
		b = append(b, js(d))
	}
	sort.Strings(a)
	sort.Strings(b)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return "types: a type definition was lost or changed"
	}
	return ""
}

func js(v any) string { b, _ := json.Marshal(v); return string(b) }

func keys(t *topo.Top) []uint32 {
	var r []uint32
	for k := range t.Types {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func perms(a []uint32) [][]uint32 {
	if len(a) == 0 {
		return [][]uint32{nil}
	}
	var out [][]uint32
	for i := range a {
		rest := append(append([]uint32{}, a[:i]...), a[i+1:]...)
		for _, p := range perms(rest) {
			out = append(out, append([]uint32{a[i]}, p...))
		}
	}
	return out
}

// tops yields the topologies of the renumbering phases: every subset of the key
// alphabet up to size n; components: one per type, one disabled, one with an
// override, repeated types and, when m > 0, every assignment of m components.
func topsOf(alpha []uint32, n int) []*topo.Top {
	var out []*topo.Top
	for m := 0; m < 1<<len(alpha); m++ {
		var ks []uint32
		for i, k := range alpha {
			if m&(1<<i) != 0 {
				ks = append(ks, k)
			}
		}
		if len(ks) > n {
			continue
		}
		t := &topo.Top{Title: "R", Types: map[uint32]topo.Def{}}
		for i, k := range ks {
			d := topo.DefOf(uint(1)<<(i%topo.NA)|1, i%3)
			d.Desc = fmt.Sprintf("type %d", k)
			t.Types[k] = d
		}
		id := uint32(1)
		for i, k := range ks {
			t.HWc = append(t.HWc, comp(id, k, nil))
			id++
			if i&1 == 0 {
				t.HWc = append(t.HWc, comp(id, 0, &topo.Def{Ext: "x"}))
				t.HWc = append(t.HWc, comp(id+1, ks[len(ks)-1-i], &topo.Def{W: 999}))
				id += 2
			}
		}
		out = append(out, t)
	}
	return out
}

func order(t *topo.Top) []uint32 { return keys(t) }

func sequential() {
	alpha := []uint32{1, 2, 3, 5, 250, 999999, 4294967295}
	tops := topsOf(alpha, vk.Pick(c, 4, 5))
	for off := int64(0); off < 8; off++ {
		runtime.VerifSetMapOffset(off)
		c.Parallel(len(tops), func(i int) {
			t := tops[i]
			for _, p := range perms(order(t)) {
				c.Run(func() any { return map[string]any{"top": t, "insertion": p, "offset": off} }, func() string {
					l := libOrdered(t, p)
					l.RandomizeTypes(true)
					c.Trans(1)
					c.Trace(1)
					c.State(l.ToJSON())
					return renumbered(t, l, true)
				})
			}
		})
	}
	// larger indexes, where iteration order is that of the hash table
	for _, n := range []int{8, 9, 16, 60, 130, 300, 700} {
		t := &topo.Top{Types: map[uint32]topo.Def{}}
		for i := 0; i < n; i++ {
			k := uint32(i*7%701 + 1)
			t.Types[k] = topo.Def{W: i + 1}
			t.HWc = append(t.HWc, comp(uint32(i+1), k, nil))
		}
		for off := int64(0); off < int64(vk.Pick(c, 64, 512)/(1+n/200)); off++ {
			runtime.VerifSetMapOffset(off)
			c.Run(map[string]any{"types": n, "offset": off}, func() string {
				l := t.Lib()
				l.RandomizeTypes(true)
				c.Trans(1)
				c.Trace(1)
				return renumbered(t, l, true)
			})
		}
	}
	runtime.VerifSetMapOffset(-1)
	c.Sample("sequential", tops[len(tops)/2])
}

// draws: every sequence up to length n over the alphabet, then distinct values.
var drawAlpha = []int64{0, 1, 249, 999999, 1000000, 2000001}

func setDraws(seq []int64) {
	rand.VerifDraw = func(n int) int64 {
		if n < len(seq) {
			return seq[n] << 32
		}
		return (5000 + int64(n)*7) << 32
	}
}

func drawSeqs(n int) [][]int64 {
	var out [][]int64
	tot := 1
	for i := 0; i < n; i++ {
		tot *= len(drawAlpha)
	}
	for k := 0; k < tot; k++ {
		s := make([]int64, n)
		v := k
		for i := range s {
			s[i] = drawAlpha[v%len(drawAlpha)]
			v /= len(drawAlpha)
		}
		out = append(out, s)
	}
	return out
}

func random() {
	alpha := []uint32{1, 2, 249, 250, 999999}
	tops := topsOf(alpha, 3)
	n := vk.Pick(c, 4, 5)
	for _, s := range drawSeqs(n) {
		setDraws(s)
		offs := []int64{0}
		if s[0] != s[1] {
			offs = []int64{0, 1, 2}
		}
		for _, off := range offs {
			runtime.VerifSetMapOffset(off)
			for _, t := range tops {
				c.Run(func() any { return map[string]any{"top": t, "draws": s, "offset": off} }, func() string {
					l := libOrdered(t, order(t))
					l.RandomizeTypes(false)
					c.Trans(1)
					c.Trace(1)
					c.State(l.ToJSON())
					if w := renumbered(t, l, false); w != "" {
						return w
					}
					// a second renumbering must again preserve everything
					l.RandomizeTypes(false)
					c.Trans(1)
					return renumbered(t, l, false)
				})
			}
		}
		if c.Expired() {
			c.Cap("draw sequences")
			break
		}
	}
	rand.VerifDraw = nil
	runtime.VerifSetMapOffset(-1)
	c.Sample("draws", drawSeqs(n)[1])
}

// histories: every sequence of transformations up to a length.
func histories() {
	alpha := []uint32{1, 3, 250}
	tops := topsOf(alpha, 3)
	depth := vk.Pick(c, 4, 6)
	seqs := [][]int64{{0, 1, 2, 3}, {1, 0, 0, 7}, {3, 1, 2, 0}, {999999, 0, 1000000, 1}}
	for _, s := range seqs {
		setDraws(s)
		for off := int64(0); off < 8; off++ {
			runtime.VerifSetMapOffset(off)
			tot := 1
			for i := 0; i < depth; i++ {
				tot *= 4
			}
			c.Parallel(len(tops)*tot, func(i int) {
				t, h := tops[i/tot], i%tot
				c.Run(func() any { return map[string]any{"top": t, "history": h, "draws": s, "offset": off} }, func() string {
					l := libOrdered(t, order(t))
					cur := t
					for k, v := 0, h; k < depth; k, v = k+1, v/4 {
						c.Trans(1)
						switch v % 4 {
						case 0, 1:
							l.RandomizeTypes(v%4 == 0)
							if w := renumbered(cur, l, v%4 == 0); w != "" {
								return fmt.Sprintf("%s (step %d)", w, k)
							}
						case 2:
							l.CleanSections()
							if d := topo.DiffTop(clean(cur), topo.TopFromLib(l)); d != "" {
								return fmt.Sprintf("sections: step %d: %s", k, d)
							}
						case 3:
							j := l.ToJSON()
							p, err := parse(j)
							if err != nil {
								return "parse: " + err.Error()
							}
							l = p
							if d := topo.DiffTop(cur, topo.TopFromLib(l)); d != "" {
								return fmt.Sprintf("roundtrip: step %d: %s", k, d)
							}
						}
						cur = topo.TopFromLib(l)
					}
					c.Trace(1)
					c.State(l.ToJSON())
					return ""
				})
			})
		}
	}
	rand.VerifDraw = nil
	runtime.VerifSetMapOffset(-1)
	c.Sample("history", map[string]any{"alphabet": []string{"renumber in sequence", "renumber at random", "remove sections", "serialise and parse"}, "depth": depth})
}

// kept: what parsing and serialising yield belongs to the caller.
func kept() {
	var calls []keep.Call
	var texts []keep.Call
	for i := 0; i < 44; i++ {
		o := topo.DefOf(1<<(i%topo.NA)|1, i%3)
		t := &topo.Top{Title: fmt.Sprint("T", i%5), HWc: []topo.Comp{comp(1, 1, nil), comp(uint32(i), 2, &o)}, Types: map[uint32]topo.Def{1: topo.DefOf(uint(i*47)%(1<<topo.NA), i%3), 2: topo.DefOf(1<<topo.NA-1, i%3)}}
		s := js(t.Lib())
		if i%4 == 3 {
			s = js(clean(t).Lib())
		}
		calls = append(calls, keep.Call{Name: "json.Unmarshal of " + s, Do: func() any { l, err := parse(s); return []any{l, err} }})
		if i%2 == 0 {
			calls = append(calls, keep.Call{Name: "ParseTopology of " + s, Do: func() any { l := rawpanel.ParseTopology(s); return &l }})
		}
		texts = append(texts, keep.Call{Name: "ToJSON of " + s, Do: func() any { l, _ := parse(s); return []string{l.ToJSON()} }})
	}
	keep.Pairs(c, keep.Struct(false), calls)
	keep.Pairs(c, keep.Lines(), texts)
}

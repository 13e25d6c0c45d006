// C13: topology look-ups. The universe is every presence pattern of the eleven
// attributes in base and override, every value pair, every small component list,
// and every sequence of two look-ups; each is executed on the library and
// compared with the model in harness/topo.
package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	lib "github.com/SKAARHOJ/rawpanel-lib/topology"

	"verif.local/harness/keep"
	"verif.local/harness/topo"
	"verif.local/harness/vk"
)

var c *vk.Check

func main() { vk.Main("C13", body) }

func body(k *vk.Check) {
	c = k
	c.Assume("Override attributes are non-negative (negative sizes and handle indices are not meaningful overrides) and component ids fit 32 bits unsigned; look-up arguments are not negative indices.",
		"The reactor's resolver is compared on the attributes both overlay: size, in, out, ext, handle index, rotation, display, sub-elements.",
		"The number of steps of a stepped component is asserted only when it has sub-elements; HasLED is asserted for outputs rgb and none.")
	c.Limit(20 * time.Second)
	c.Phase("presence of every attribute in base x override", presence)
	c.Phase("values of attribute pairs", values)
	c.Phase("values of every attribute", ranges)
	c.Phase("component lists, ids and look-up sequences", ids)
	c.Phase("predicates", predicates)
	c.Phase("look-ups between edits of one topology", edits)
	c.Phase("large topologies", large)
	c.Phase("results kept: all pairs of look-ups", kept)
}

// presence: one component, its type and its override.
func presence() {
	variants := vk.Pick(c, []int{1}, []int{0, 1, 2})
	n := 1 << topo.NA
	for _, ov := range variants {
		for _, bv := range []int{0} {
			c.Parallel(n, func(bm int) {
				base := topo.DefOf(uint(bm), bv)
				for om := -1; om < n; om++ {
					var over *topo.Def
					if om >= 0 {
						o := topo.DefOf(uint(om), ov)
						over = &o
					}
					one(base, over, false)
				}
			})
		}
	}
}

func input(base topo.Def, over *topo.Def) func() any {
	return func() any {
		return map[string]any{"base": base, "override": over}
	}
}

// one resolves one component both ways and compares with the model.
func one(base topo.Def, over *topo.Def, js bool) {
	c.Run(input(base, over), func() string {
		t := &topo.Top{HWc: []topo.Comp{{Id: 9, Type: 77, X: 4, Y: 5, Txt: "t", Over: over}}, Types: map[uint32]topo.Def{77: base}}
		l := t.Lib()
		want := topo.Resolve(base, over)
		before := ""
		if js {
			before = l.ToJSON()
		}
		got, err := l.GetHWCtype(9)
		if err != nil || got == nil {
			return fmt.Sprintf("notfound: GetHWCtype says %v for a component that exists", err)
		}
		g := topo.FromLib(got)
		if a := topo.Diff(&want, &g, topo.All); a != "" {
			return fmt.Sprintf("resolve %s: GetHWCtype: attribute %s is wrong: want %+v got %+v", a, a, want, g)
		}
		direct := l.GetTypeDefWithOverride(&l.HWc[0])
		g = topo.FromLib(&direct)
		if a := topo.Diff(&want, &g, topo.All); a != "" {
			return fmt.Sprintf("resolve %s: GetTypeDefWithOverride: attribute %s is wrong: want %+v got %+v", a, a, want, g)
		}
		for i, r := range []*lib.TopologyHWcTypeDef{l.GetHWCTypeDefinition(0), l.GetHWCTypeDefinitionFromHWCid(9)} {
			if r == nil {
				return "reactor nil: nil definition for an indexed type"
			}
			g = topo.FromLib(r)
			if a := topo.Diff(&want, &g, topo.Shared); a != "" {
				return fmt.Sprintf("reactor %s: resolver %d disagrees on %s: want %+v got %+v", a, i, a, want, g)
			}
		}
		wd := []uint32{}
		if want.Disp != nil {
			wd = append(wd, 9)
		}
		if gd := l.GetHWCsWithDisplay(); fmt.Sprint(gd) != fmt.Sprint(wd) {
			return fmt.Sprintf("displays: want %v got %v", wd, gd)
		}
		if got.HasDisplay() != (want.Disp != nil) {
			return "hasdisplay: HasDisplay does not follow the resolved definition"
		}
		if d := topo.DiffTop(t, topo.TopFromLib(l)); d != "" {
			return "mutated: a look-up changed the topology: " + d
		}
		if js {
			if a := l.ToJSON(); a != before {
				return fmt.Sprintf("mutated: a look-up changed the serialised form from %s to %s", before, a)
			}
			c.State(before)
		} else {
			c.State(fmt.Sprintf("%v|%v|%v", mask(&base), over != nil, mask(over)) + want.In)
		}
		c.Trace(1)
		c.Trans(5)
		if c.WantSample("resolve") && over != nil {
			c.Sample("resolve", map[string]any{"base": base, "override": over, "resolved": want})
		}
		return ""
	})
}

func mask(d *topo.Def) int {
	m := 0
	if d != nil {
		for a := 0; a < topo.NA; a++ {
			if !d.Empty(a) {
				m |= 1 << a
			}
		}
	}
	return m
}

// values: every pair of attributes takes every combination of three base and
// three override values (none, and the values of two variants), with all other
// attributes absent or present on either side.
func values() {
	type job struct{ a, b, ctx int }
	var jobs []job
	for a := 0; a < topo.NA; a++ {
		for b := a + 1; b < topo.NA; b++ {
			for ctx := 0; ctx < 4; ctx++ {
				jobs = append(jobs, job{a, b, ctx})
			}
		}
	}
	const full = 1<<topo.NA - 1
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		for v := 0; v < 256; v++ {
			ba, bb, oa, ob := v&3, v>>2&3, v>>4&3, v>>6&3
			var base, over topo.Def
			if j.ctx&1 != 0 {
				base = topo.DefOf(full, 0)
			}
			if j.ctx&2 != 0 {
				over = topo.DefOf(full, 1)
			}
			set := func(d *topo.Def, a, v int) {
				if v == 3 {
					d.Take(a, &topo.Def{})
				} else {
					d.Take(a, &topo.Variants[v])
				}
			}
			set(&base, j.a, ba)
			set(&base, j.b, bb)
			set(&over, j.a, oa)
			set(&over, j.b, ob)
			one(base, &over, true)
		}
	})
}

// Ints are all small numbers and the neighbours of every power of two and ten.
func numbers(limit int) (out []int) {
	seen := map[int]bool{}
	put := func(v int) {
		if v > 0 && v <= limit && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for v := 1; v < 300; v++ {
		put(v)
	}
	for p := 256; p <= 1<<31; p *= 2 {
		put(p - 1)
		put(p)
		put(p + 1)
	}
	for p := 1000; p <= 1_000_000_000; p *= 10 {
		for _, k := range []int{1, 2, 5} {
			put(k*p - 1)
			put(k * p)
			put(k*p + 1)
		}
	}
	return
}

// ranges: one attribute takes values of all magnitudes in the base or the
// override, on both sides of which the rest is absent or present.
func ranges() {
	type setter struct {
		name string
		f    func(d *topo.Def, v int)
		max  int
	}
	text := func(v int) string { return strings.Repeat("abcdefghi,", v/10) + "jklmnopqrs"[:v%10] }
	list := func(v int) (s []topo.Sub) {
		for i := 0; i < v; i++ {
			s = append(s, topo.Sub{Obj: []string{"r", "c", "d"}[i%3], X: i, Y: -i, W: v, R: i, Idx: i})
		}
		return
	}
	sets := []setter{
		{"w", func(d *topo.Def, v int) { d.W = v }, 1 << 31},
		{"h", func(d *topo.Def, v int) { d.H = v }, 1 << 31},
		{"subidx", func(d *topo.Def, v int) { d.Subidx = v }, 1 << 31},
		{"rotate", func(d *topo.Def, v int) { d.Rotate = float32(v) }, 1 << 24},
		{"rotate parts", func(d *topo.Def, v int) { d.Rotate = 1 / float32(v) }, 1 << 24},
		{"rotate back", func(d *topo.Def, v int) { d.Rotate = -float32(v) / 8 }, 1 << 24},
		{"out", func(d *topo.Def, v int) { d.Out = text(v) }, 70000},
		{"in", func(d *topo.Def, v int) { d.In = text(v) }, 70000},
		{"ext", func(d *topo.Def, v int) { d.Ext = text(v) }, 70000},
		{"desc", func(d *topo.Def, v int) { d.Desc = text(v) }, 70000},
		{"render", func(d *topo.Def, v int) { d.Render = text(v) }, 70000},
		{"disp w", func(d *topo.Def, v int) { d.Disp = &topo.Disp{W: v, H: 1} }, 1 << 31},
		{"disp h", func(d *topo.Def, v int) { d.Disp = &topo.Disp{H: v} }, 1 << 31},
		{"disp both", func(d *topo.Def, v int) { d.Disp = &topo.Disp{W: v, H: v} }, 1 << 31},
		{"disp subidx", func(d *topo.Def, v int) { d.Disp = &topo.Disp{W: 1, H: 1, Subidx: v} }, 1 << 31},
		{"disp type", func(d *topo.Def, v int) { d.Disp = &topo.Disp{Type: text(v)} }, 5000},
		{"disp shrink", func(d *topo.Def, v int) { d.Disp = &topo.Disp{Shrink: v, Border: v} }, 1 << 31},
		{"sub", func(d *topo.Def, v int) { d.Sub = list(v) }, 2100},
		{"sub idx", func(d *topo.Def, v int) { d.Sub = []topo.Sub{{Idx: v, W: v, H: v, X: v, Y: -v, R: v}} }, 1 << 31},
	}
	const full = 1<<topo.NA - 1
	c.Parallel(len(sets), func(i int) {
		s := sets[i]
		for _, v := range numbers(s.max) {
			for ctx := 0; ctx < 6; ctx++ {
				var base, over topo.Def
				if ctx&1 != 0 {
					base, over = topo.DefOf(full, 0), topo.DefOf(full, 1)
				}
				switch ctx / 2 {
				case 0:
					s.f(&over, v)
				case 1:
					s.f(&base, v)
				case 2:
					s.f(&base, v)
					s.f(&over, v+1)
				}
				one(base, &over, false)
			}
		}
	})
	// steps of every distance
	c.Parallel(1, func(int) {
		ns := append([]int{0}, numbers(9999)...)
		for _, v := range ns {
			for _, s := range [][]topo.Sub{{{Idx: v}}, {{Idx: v}, {Idx: v}}, {{Idx: 0}, {Idx: v}}, {{Idx: v}, {Idx: v / 2}, {Idx: v/2 + 1}}, {{Idx: -v}, {Idx: v}}, {{Idx: -v}}} {
				d := topo.Def{Ext: "steps", Sub: s}
				c.Run(map[string]any{"def": d}, func() string { return pred(d, 0) })
			}
		}
	})
}

// ids: all component lists up to three (four) entries over a small id and type
// alphabet; every look-up of every id, and every sequence of two look-ups.
func ids() {
	idAlpha := []uint32{0, 1, 2, 4294967295}
	typeAlpha := []uint32{0, 1, 250, 99} // 99 is not indexed
	ov := topo.DefOf(1|1<<8, 1)
	var entries []topo.Comp
	for i, id := range idAlpha {
		for j, ty := range typeAlpha {
			entries = append(entries, topo.Comp{Id: id, Type: ty, X: i*100 + j, Y: -i - 7, Txt: fmt.Sprintf("L%d|%d", i, j)})
			if j < 2 || j == 3 {
				entries = append(entries, topo.Comp{Id: id, Type: ty, X: 1000 + i*100 + j, Y: 3 * i, Txt: "", Over: &ov})
			}
		}
	}
	types := map[uint32]topo.Def{1: topo.DefOf(1|1<<3|1<<8, 0), 250: topo.DefOf(1|2, 2), 4000000000: topo.DefOf(1<<11-1, 2)}
	maxLen := vk.Pick(c, 2, 3)
	var lists [][]int
	var gen func(cur []int)
	gen = func(cur []int) {
		lists = append(lists, append([]int{}, cur...))
		if len(cur) == maxLen {
			return
		}
		for i := range entries {
			gen(append(cur, i))
		}
	}
	gen(nil)
	if maxLen == 2 { // and every list of three in which ids repeat or types vary, over a reduced alphabet
		red := []int{}
		for i := range entries {
			if entries[i].Id <= 1 {
				red = append(red, i)
			}
		}
		for _, a := range red {
			for _, b := range red {
				for _, d := range red {
					lists = append(lists, []int{a, b, d})
				}
			}
		}
	}
	queries := []uint32{0, 1, 2, 3, 4294967295, 4294967294, 256}
	const nops = 7
	c.Parallel(len(lists), func(li int) {
		t := &topo.Top{Title: "T", Types: types}
		for _, e := range lists[li] {
			t.HWc = append(t.HWc, entries[e])
		}
		c.Run(func() any { return t }, func() string {
			l := t.Lib()
			before := l.ToJSON()
			c.State(before)
			// every sequence of two look-ups: the second must not depend on the first
			var ops []func() string
			for _, q := range queries {
				for o := 0; o < nops; o++ {
					o, q := o, q
					ops = append(ops, func() string { return lookup(l, t, o, q) })
				}
			}
			for _, f := range ops {
				if s := f(); s != "" {
					return s
				}
				c.Trans(1)
			}
			if len(t.HWc) <= 2 {
				for _, f := range ops {
					for _, g := range ops[:nops*2] {
						f()
						if s := g(); s != "" {
							return "sequence " + s
						}
						c.Trans(2)
					}
				}
			}
			if a := l.ToJSON(); a != before {
				return fmt.Sprintf("mutated: look-ups changed the serialised form from %s to %s", before, a)
			}
			var back any
			if json.Unmarshal([]byte(before), &back) != nil {
				return "json: ToJSON is not JSON"
			}
			c.Trace(1)
			if len(lists[li]) == 2 && c.WantSample("list") {
				c.Sample("list", t)
			}
			return ""
		})
	})
}

func lookup(l *lib.Topology, t *topo.Top, op int, q uint32) string {
	comp := t.Find(q)
	switch op {
	case 0:
		var want []uint32
		for _, x := range t.HWc {
			want = append(want, x.Id)
		}
		if g := l.GetHWCs(); len(g) != len(want) || (len(want) > 0 && fmt.Sprint(g) != fmt.Sprint(want)) {
			return fmt.Sprintf("list: GetHWCs: want %v got %v", want, g)
		}
	case 1:
		x, y := l.GetHWCxy(q)
		wx, wy := -1, -1
		if comp != nil {
			wx, wy = comp.X, comp.Y
		}
		if x != wx || y != wy {
			return fmt.Sprintf("xy: GetHWCxy(%d): want %d,%d got %d,%d", q, wx, wy, x, y)
		}
	case 2:
		want := ""
		if comp != nil {
			want = comp.Txt
		}
		if g := l.GetHWCtext(q); g != want {
			return fmt.Sprintf("text: GetHWCtext(%d): want %q got %q", q, want, g)
		}
	case 3:
		g, err := l.GetHWCtype(q)
		if comp == nil {
			if err == nil || g != nil {
				return fmt.Sprintf("notfound: GetHWCtype(%d) of an unknown id: %v, %v", q, g, err)
			}
			return ""
		}
		if err != nil || g == nil {
			return fmt.Sprintf("notfound: GetHWCtype(%d) of a known id: %v", q, err)
		}
		want := topo.Resolve(t.Types[comp.Type], comp.Over)
		gd := topo.FromLib(g)
		if a := topo.Diff(&want, &gd, topo.All); a != "" {
			return fmt.Sprintf("resolve %s: GetHWCtype(%d): want %+v got %+v", a, q, want, gd)
		}
	case 4:
		g := l.GetHWCTypeDefinitionFromHWCid(int(q))
		if g == nil {
			return "reactor nil: nil definition"
		}
		gd := topo.FromLib(g)
		if comp == nil {
			if a := topo.Diff(&topo.Def{}, &gd, topo.All); a != "" {
				return fmt.Sprintf("notfound: GetHWCTypeDefinitionFromHWCid(%d) of an unknown id: %+v", q, gd)
			}
			return ""
		}
		base, ok := t.Types[comp.Type]
		if !ok {
			return ""
		}
		want := topo.Resolve(base, comp.Over)
		if a := topo.Diff(&want, &gd, topo.Shared); a != "" {
			return fmt.Sprintf("reactor %s: id %d: want %+v got %+v", a, q, want, gd)
		}
	case 5:
		g := l.GetHWCDefinitionFromHWCid(int(q))
		if g == nil {
			return "reactor nil: nil component"
		}
		gc := topo.CompFromLib(g)
		want := topo.Comp{}
		if comp != nil {
			want = *comp
		}
		if !topo.EqComp(&gc, &want) {
			return fmt.Sprintf("component: GetHWCDefinitionFromHWCid(%d): want %+v got %+v", q, want, gc)
		}
	case 6:
		var want []uint32
		for _, x := range t.HWc {
			if d := topo.Resolve(t.Types[x.Type], x.Over); d.Disp != nil {
				want = append(want, x.Id)
			}
		}
		if g := l.GetHWCsWithDisplay(); len(g) != len(want) || (len(want) > 0 && fmt.Sprint(g) != fmt.Sprint(want)) {
			return fmt.Sprintf("displays: GetHWCsWithDisplay: want %v got %v", want, g)
		}
	}
	return ""
}

func predicates() {
	kinds := []string{"", "b", "b4", "b2h", "b2v", "pb", "gpi", "p", "a", "av", "ah", "ar", "i", "iv", "ih", "ir", "B", "bb", "b2", "b4x", "pbx", "ax", "ix", "gpi2", " b", "b ", "rgb", "pos", "steps"}
	var ins []string
	for _, k := range kinds {
		ins = append(ins, k, k+",", k+",b", k+",p,av")
	}
	ins = append(ins, ",b", ",av", "x,b")
	outs := []string{"", "rgb", "rg", "rb", "mono", "rgb,x"}
	exts := []string{"", "steps", "pos", "steps,pos", "pos,steps", "mem", "possteps", "Steps"}
	disps := []*topo.Disp{nil, {W: 64, H: 32}, {Type: "text"}}
	subs := [][]topo.Sub{nil, {{Idx: 3}}, {{Idx: 2}, {Idx: 0}, {Idx: 5}}, {{Idx: 7}, {Idx: 7}}, {{Idx: -2}, {Idx: 4}}, {{Idx: -4}, {Idx: -2}}, {{Idx: -1}}, {{Idx: -9}, {Idx: -9}}, {{Idx: 20}, {Idx: 11}}, {{Idx: 0}}, {{Idx: 9999}, {Idx: -9999}}, {{Idx: 100, Obj: "d"}, {Idx: 1}, {Idx: 2}, {Idx: 3}, {Idx: 4}}}
	type spec struct {
		d    topo.Def
		mode int
	}
	c.Parallel(len(ins), func(i int) {
		for _, out := range outs {
			for _, ext := range exts {
				for _, dp := range disps {
					for _, sb := range subs {
						for mode := 0; mode < 4; mode++ {
							d := topo.Def{In: ins[i], Out: out, Ext: ext, Disp: dp, Sub: sb}
							c.Run(map[string]any{"def": d, "mode": mode}, func() string { return pred(d, mode) })
						}
					}
				}
			}
		}
	})
}

// pred: mode bit 0: the attributes come from the override, over a base with
// other values in the unrelated ones; bit 1: unrelated attributes filled.
func pred(d topo.Def, mode int) string {
	base := topo.Def{}
	if mode&2 != 0 {
		base = topo.DefOf(1|2|1<<4|1<<6|1<<7|1<<10, 1)
	}
	var over *topo.Def
	if mode&1 != 0 {
		o := d
		over = &o
	} else {
		for _, a := range []int{2, 3, 5, 8, 9} {
			base.Take(a, &d)
		}
	}
	t := &topo.Top{HWc: []topo.Comp{{Id: 1, Type: 5, Over: over}}, Types: map[uint32]topo.Def{5: base}}
	l := t.Lib()
	first, err := l.GetHWCtype(1)
	if err != nil {
		return "notfound: " + err.Error()
	}
	for r, td := range []*lib.TopologyHWcTypeDef{first, l.GetHWCTypeDefinitionFromHWCid(1)} {
		for round := 0; round < 2; round++ {
			chk := func(name string, want, got any) string {
				c.Trans(1)
				if want != got {
					return fmt.Sprintf("predicate %s: resolver %d: want %v got %v for in=%q out=%q ext=%q sub=%v", name, r, want, got, d.In, d.Out, d.Ext, d.Sub)
				}
				return ""
			}
			res := []string{
				chk("GetInputType", d.InputKind(), td.GetInputType()),
				chk("IsButton", d.Button(), td.IsButton()),
				chk("IsBinary", d.Binary(), td.IsBinary()),
				chk("IsPulsed", d.Pulsed(), td.IsPulsed()),
				chk("IsAbsolute", d.Absolute(), td.IsAbsolute()),
				chk("IsIntensity", d.Intensity(), td.IsIntensity()),
				chk("IsMotorized", d.Motorized(), td.IsMotorized()),
				chk("HasDisplay", d.Disp != nil, td.HasDisplay()),
				chk("LedBarSteps", d.LedBar(), td.LedBarSteps()),
			}
			if d.Ext != "steps" || len(d.Sub) > 0 {
				res = append(res, chk("HasSteps", d.Steps(), td.HasSteps()))
			}
			if d.Out == "rgb" {
				res = append(res, chk("HasLED", true, td.HasLED()))
			} else if d.Out == "" {
				res = append(res, chk("HasLED", false, td.HasLED()))
			} else {
				// Only a function of the resolved definition: compare with a bare one.
				bare := d.Lib()
				res = append(res, chk("HasLED", bare.HasLED(), td.HasLED()))
			}
			di := td.DisplayInfo()
			if (di != nil) != (d.Disp != nil) || (di != nil && (di.W != d.Disp.W || di.H != d.Disp.H || di.Type != d.Disp.Type)) {
				return fmt.Sprintf("predicate DisplayInfo: want %v got %v", d.Disp, di)
			}
			for _, s := range res {
				if s != "" {
					return s
				}
			}
		}
	}
	if x := topo.DiffTop(t, topo.TopFromLib(l)); x != "" {
		return "mutated: a predicate changed the topology: " + x
	}
	c.State(fmt.Sprint(d.In, "/", d.Out, "/", d.Ext, "/", d.Disp != nil, d.Sub, mode))
	c.Trace(1)
	if c.WantSample("predicate") {
		c.Sample("predicate", map[string]any{"def": d})
	}
	return ""
}

// An edit changes the library's object and the model in the same way.
type edit struct {
	name string
	do   func(l *lib.Topology, t *topo.Top)
}

func editList() []edit {
	d1, d2, d3 := topo.DefOf(1|1<<2|1<<8|1<<9, 1), topo.DefOf(1<<11-1, 2), topo.DefOf(1|2|1<<3, 0)
	last := func(l *lib.Topology) int { return len(l.HWc) - 1 }
	return []edit{
		{"the first component gets type 3", func(l *lib.Topology, t *topo.Top) {
			if len(t.HWc) > 0 {
				t.HWc[0].Type, l.HWc[0].Type = 3, 3
			}
		}},
		{"the last component gets type 1", func(l *lib.Topology, t *topo.Top) {
			if k := last(l); k >= 0 {
				t.HWc[k].Type, l.HWc[k].Type = 1, 1
			}
		}},
		{"the last component gets an override", func(l *lib.Topology, t *topo.Top) {
			if k := last(l); k >= 0 {
				d := d1
				t.HWc[k].Over = &d
				n := d.Lib()
				l.HWc[k].TypeOverride = &n
			}
		}},
		{"the override of the last component changes in place", func(l *lib.Topology, t *topo.Top) {
			if k := last(l); k >= 0 && t.HWc[k].Over != nil {
				d := *t.HWc[k].Over
				d.W, d.In = d.W+5, "av"
				t.HWc[k].Over = &d
				l.HWc[k].TypeOverride.W, l.HWc[k].TypeOverride.In = d.W, d.In
			}
		}},
		{"the last component loses its override", func(l *lib.Topology, t *topo.Top) {
			if k := last(l); k >= 0 {
				t.HWc[k].Over, l.HWc[k].TypeOverride = nil, nil
			}
		}},
		{"type 1 is replaced in the index", func(l *lib.Topology, t *topo.Top) {
			t.Types[1] = d2
			l.TypeIndex[1] = d2.Lib()
		}},
		{"type 1 leaves the index", func(l *lib.Topology, t *topo.Top) {
			delete(t.Types, 1)
			delete(l.TypeIndex, 1)
		}},
		{"a new index", func(l *lib.Topology, t *topo.Top) {
			t.Types = map[uint32]topo.Def{1: d3, 3: d1, 250: d3}
			l.TypeIndex = (&topo.Top{Types: t.Types}).Lib().TypeIndex
		}},
		{"the first and the last component swap places", func(l *lib.Topology, t *topo.Top) {
			if k := last(l); k > 0 {
				t.HWc[0], t.HWc[k] = t.HWc[k], t.HWc[0]
				l.HWc[0], l.HWc[k] = l.HWc[k], l.HWc[0]
			}
		}},
		{"the first component gets id 7 and moves", func(l *lib.Topology, t *topo.Top) {
			if len(t.HWc) > 0 {
				t.HWc[0].Id, l.HWc[0].Id = 7, 7
				t.HWc[0].X, l.HWc[0].X = 555, 555
				t.HWc[0].Txt, l.HWc[0].Txt = "moved", "moved"
			}
		}},
		{"a component with id 2 is appended", func(l *lib.Topology, t *topo.Top) {
			n := topo.Comp{Id: 2, Type: 3, X: 1, Y: 2, Txt: "new"}
			t.HWc = append(t.HWc, n)
			l.HWc = append(l.HWc, (&topo.Top{HWc: []topo.Comp{n}}).Lib().HWc[0])
		}},
		{"the first component is removed", func(l *lib.Topology, t *topo.Top) {
			if len(t.HWc) > 0 {
				t.HWc, l.HWc = t.HWc[1:], l.HWc[1:]
			}
		}},
		{"sections are removed", func(l *lib.Topology, t *topo.Top) {
			l.CleanSections()
			var k []topo.Comp
			for _, x := range t.HWc {
				if x.Type != 250 {
					k = append(k, x)
				}
			}
			t.HWc = k
		}},
		{"the topology is read again from JSON into new lists", func(l *lib.Topology, t *topo.Top) {
			n := &topo.Top{Types: map[uint32]topo.Def{1: d1, 2: d3}, HWc: []topo.Comp{{Id: 2, Type: 1, X: 9, Y: 9}, {Id: 1, Type: 2, X: 8, Y: 8, Txt: "j"}}}
			t.HWc, t.Types = n.HWc, n.Types
			js := n.Lib().ToJSON()
			l.HWc, l.TypeIndex = nil, nil
			if json.Unmarshal([]byte(js), l) != nil {
				panic("json")
			}
		}},
	}
}

// edits: all sequences of edits up to a length on one object; all look-ups
// before the first and after every edit.
func edits() {
	es := editList()
	n := len(es)
	depth := vk.Pick(c, 4, 5)
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	ov := topo.DefOf(1|1<<8, 1)
	starts := []func() *topo.Top{
		func() *topo.Top {
			o := ov
			return &topo.Top{Title: "T", HWc: []topo.Comp{{Id: 1, Type: 1, X: 1, Y: 2, Txt: "a"}, {Id: 5, Type: 250}, {Id: 3, Type: 1, X: 3, Y: 4, Txt: "b", Over: &o}},
				Types: map[uint32]topo.Def{1: topo.DefOf(1|1<<3, 0), 3: topo.DefOf(1<<11-1, 0), 250: topo.DefOf(1, 2)}}
		},
		func() *topo.Top { return &topo.Top{Types: map[uint32]topo.Def{3: topo.DefOf(2|1<<8, 1)}} },
	}
	all := func(l *lib.Topology, t *topo.Top) string {
		for o := 0; o < 7; o++ {
			for _, q := range []uint32{1, 2, 3, 5, 7} {
				if s := lookup(l, t, o, q); s != "" {
					return s
				}
				c.Trans(1)
				if o == 0 || o == 6 {
					break
				}
			}
		}
		for k := range t.HWc {
			if base, ok := t.Types[t.HWc[k].Type]; ok {
				want := topo.Resolve(base, t.HWc[k].Over)
				g := topo.FromLib(l.GetHWCTypeDefinition(k))
				if a := topo.Diff(&want, &g, topo.Shared); a != "" {
					return fmt.Sprintf("reactor %s: entry %d: want %+v got %+v", a, k, want, g)
				}
				d := l.GetTypeDefWithOverride(&l.HWc[k])
				g = topo.FromLib(&d)
				if a := topo.Diff(&want, &g, topo.All); a != "" {
					return fmt.Sprintf("resolve %s: GetTypeDefWithOverride of entry %d: want %+v got %+v", a, k, want, g)
				}
			}
		}
		return ""
	}
	c.Parallel(total, func(i int) {
		var seq []int
		for k, r := 0, i; k < depth; k, r = k+1, r/n {
			seq = append(seq, r%n)
		}
		for si, st := range starts {
			c.Run(func() any {
				var names []string
				for _, e := range seq {
					names = append(names, es[e].name)
				}
				return map[string]any{"topology": st(), "edits": names}
			}, func() string {
				t := st()
				l := t.Lib()
				if s := all(l, t); s != "" {
					return s
				}
				for k, e := range seq {
					es[e].do(l, t)
					if s := all(l, t); s != "" {
						return fmt.Sprintf("%s (after %d edits)", s, k+1)
					}
					if d := topo.DiffTop(t, topo.TopFromLib(l)); d != "" {
						return "mutated: a look-up changed the topology: " + d
					}
				}
				c.State(fmt.Sprint(si, l.ToJSON()))
				c.Trace(1)
				return ""
			})
		}
	})
}

// large: many components in several orders, with gaps and duplicates.
func large() {
	// ids that agree in their lower bits
	c.Parallel(31, func(k int) {
		mod := uint32(1) << (k + 1)
		t := &topo.Top{Types: map[uint32]topo.Def{1: topo.DefOf(1|1<<3, 0), 2: topo.DefOf(1|1<<3|1<<8, 1), 1 + mod: topo.DefOf(1<<topo.NA-1, 2), 2 + mod: topo.DefOf(3, 2)}}
		var qs []uint32
		for i, low := range []uint32{0, 1, 3} {
			for _, id := range []uint32{low + mod, low, low + 2*mod, low + 3*mod, low - mod} {
				qs = append(qs, id)
				if t.Find(id) == nil {
					t.HWc = append(t.HWc, topo.Comp{Id: id, Type: []uint32{1, 2, 1 + mod, 2 + mod}[(i+len(t.HWc))%4], X: len(t.HWc), Y: -7, Txt: fmt.Sprint("id", id)})
				}
			}
		}
		for part := 0; part < 3; part++ { // all, and those at odd or even places only: the others are unknown
			u := &topo.Top{Types: t.Types}
			for i, x := range t.HWc {
				if part == 0 || i%2 == part-1 {
					u.HWc = append(u.HWc, x)
				}
			}
			c.Run(u, func() string {
				l := u.Lib()
				for _, q := range qs {
					for o := 0; o < 7; o++ {
						if s := lookup(l, u, o, q); s != "" {
							return s
						}
						c.Trans(1)
					}
				}
				c.Trace(1)
				return ""
			})
		}
	})
	sizes := []int{10, 31, 32, 33, 64, 100, 255, 256, 257, 300, 1000}
	c.Parallel(len(sizes)*5, func(i int) {
		n, order := sizes[i/5], i%5
		t := &topo.Top{Types: map[uint32]topo.Def{}}
		for k := 1; k <= n; k++ {
			if k%5 != 0 {
				t.Types[uint32(k)] = topo.DefOf(uint(k*37)&(1<<topo.NA-1), k%3)
			}
		}
		for k := 0; k < n; k++ {
			j := k
			switch order {
			case 1:
				j = n - 1 - k
			case 2:
				j = (k * 7919) % n
			case 3:
				j = k / 2
			case 4:
				j = k * 13
			}
			x := topo.Comp{Id: uint32(j + 1), Type: uint32(k+1) % uint32(n+3), X: k, Y: -k, Txt: fmt.Sprint("t", k)}
			if k%3 == 0 {
				o := topo.DefOf(uint(k*53)&(1<<topo.NA-1), (k+1)%3)
				x.Over = &o
			}
			t.HWc = append(t.HWc, x)
		}
		c.Run(func() any { return map[string]any{"components": n, "order": order} }, func() string {
			l := t.Lib()
			before := l.ToJSON()
			for q := uint32(0); q < uint32(n*13+3); q++ {
				for o := 1; o < 6; o++ {
					if s := lookup(l, t, o, q); s != "" {
						return s
					}
					c.Trans(1)
				}
				if order != 4 && q > uint32(n+2) {
					break
				}
			}
			for _, o := range []int{0, 6} {
				if s := lookup(l, t, o, 0); s != "" {
					return s
				}
			}
			if l.ToJSON() != before {
				return "mutated: look-ups changed the serialised form"
			}
			c.State(before)
			c.Trace(1)
			return ""
		})
	})
}

// kept: a look-up leaves the results of earlier ones alone, in the same topology
// and in others. Results may share memory with the topology they come from.
func kept() {
	def := func(t *topo.Top) *lib.Topology { return t.Lib() }
	var calls, lists []keep.Call
	for i := 0; i < 10; i++ {
		o := topo.DefOf(uint(i*53)&(1<<topo.NA-1)|1, (i+1)%3)
		t := &topo.Top{HWc: []topo.Comp{{Id: 1, Type: 1, X: i, Txt: "a"}, {Id: 2, Type: 2, Over: &o}, {Id: 3, Type: 1, Over: &o}}, Types: map[uint32]topo.Def{1: topo.DefOf(uint(i*37)&(1<<topo.NA-1), i%3), 2: topo.DefOf(1<<topo.NA-1, i%3)}}
		var l *lib.Topology
		get := func() *lib.Topology {
			if i%3 == 0 {
				if l == nil {
					l = def(t)
				}
				return l
			}
			return def(t)
		}
		add := func(n string, f func(*lib.Topology) any) {
			calls = append(calls, keep.Call{Name: fmt.Sprintf("%s in topology %d", n, i), Do: func() any { return f(get()) }})
		}
		for q := uint32(0); q < 4; q++ {
			add(fmt.Sprintf("GetHWCtype(%d)", q), func(l *lib.Topology) any { d, err := l.GetHWCtype(q); return []any{d, err == nil} })
			add(fmt.Sprintf("GetHWCTypeDefinitionFromHWCid(%d)", q), func(l *lib.Topology) any { return l.GetHWCTypeDefinitionFromHWCid(int(q)) })
			if q > 0 {
				add(fmt.Sprintf("GetHWCDefinitionFromHWCid(%d)", q), func(l *lib.Topology) any { return l.GetHWCDefinitionFromHWCid(int(q)) })
				add(fmt.Sprintf("GetTypeDefWithOverride(#%d)", q), func(l *lib.Topology) any { d := l.GetTypeDefWithOverride(&l.HWc[q-1]); return &d })
			}
		}
		add("GetHWCs", func(l *lib.Topology) any { return l.GetHWCs() })
		add("GetHWCsWithDisplay", func(l *lib.Topology) any { return l.GetHWCsWithDisplay() })
		lists = append(lists, keep.Call{Name: fmt.Sprintf("GetHWCs in topology %d", i), Do: func() any { l := get().GetHWCs(); return &l }}, keep.Call{Name: fmt.Sprintf("GetHWCsWithDisplay in topology %d", i), Do: func() any { l := get().GetHWCsWithDisplay(); return &l }})
	}
	keep.Pairs(c, keep.Struct(true), calls)
	keep.Pairs(c, keep.Struct(false), lists)
}

// Package topo is an independent model of the panel topology: its data, the
// overlay of a component's override onto its type, and the predicates. It
// shares nothing with the library but the data types at the boundary.
package topo

import (
	"fmt"
	"strings"

	lib "github.com/SKAARHOJ/rawpanel-lib/topology"
)

type Disp struct {
	W, H, Subidx   int
	Type           string
	Shrink, Border int
}

type Sub struct {
	Obj        string
	X, Y, W, H int
	R, Rx, Ry  int
	Style      string
	Idx        int
}

// Def is one type definition, NA attributes.
type Def struct {
	W, H      int
	Out, In   string
	Desc, Ext string
	Subidx    int
	Rotate    float32
	Disp      *Disp
	Sub       []Sub
	Render    string
}

// NA is the number of attributes of a definition.
const NA = 11

var AttrName = [NA]string{"w", "h", "out", "in", "desc", "ext", "subidx", "rotate", "disp", "sub", "render"}

type Comp struct {
	Id, Type uint32
	X, Y     int
	Txt      string
	Parent   uint32
	Yang     uint32
	Over     *Def
}

type Top struct {
	Title string
	HWc   []Comp
	Types map[uint32]Def
}

// Empty reports whether attribute a of d has no value.
func (d *Def) Empty(a int) bool {
	switch a {
	case 0:
		return d.W == 0
	case 1:
		return d.H == 0
	case 2:
		return d.Out == ""
	case 3:
		return d.In == ""
	case 4:
		return d.Desc == ""
	case 5:
		return d.Ext == ""
	case 6:
		return d.Subidx == 0
	case 7:
		return d.Rotate == 0
	case 8:
		return d.Disp == nil
	case 9:
		return len(d.Sub) == 0
	case 10:
		return d.Render == ""
	}
	panic(a)
}

// Take copies attribute a of o into d.
func (d *Def) Take(a int, o *Def) {
	switch a {
	case 0:
		d.W = o.W
	case 1:
		d.H = o.H
	case 2:
		d.Out = o.Out
	case 3:
		d.In = o.In
	case 4:
		d.Desc = o.Desc
	case 5:
		d.Ext = o.Ext
	case 6:
		d.Subidx = o.Subidx
	case 7:
		d.Rotate = o.Rotate
	case 8:
		d.Disp = o.Disp
	case 9:
		d.Sub = o.Sub
	case 10:
		d.Render = o.Render
	}
}

// Resolve is the rule of the property: the base with every attribute for which
// the override has a value replaced.
func Resolve(base Def, over *Def) Def {
	if over == nil {
		return base
	}
	for a := 0; a < NA; a++ {
		if !over.Empty(a) {
			base.Take(a, over)
		}
	}
	return base
}

// Find returns the first component with the id.
func (t *Top) Find(id uint32) *Comp {
	for i := range t.HWc {
		if t.HWc[i].Id == id {
			return &t.HWc[i]
		}
	}
	return nil
}

// EqAttr compares attribute a.
func EqAttr(a int, x, y *Def) bool {
	switch a {
	case 0:
		return x.W == y.W
	case 1:
		return x.H == y.H
	case 2:
		return x.Out == y.Out
	case 3:
		return x.In == y.In
	case 4:
		return x.Desc == y.Desc
	case 5:
		return x.Ext == y.Ext
	case 6:
		return x.Subidx == y.Subidx
	case 7:
		return x.Rotate == y.Rotate
	case 8:
		return (x.Disp == nil) == (y.Disp == nil) && (x.Disp == nil || *x.Disp == *y.Disp)
	case 9:
		if len(x.Sub) != len(y.Sub) {
			return false
		}
		for i := range x.Sub {
			if x.Sub[i] != y.Sub[i] {
				return false
			}
		}
		return true
	case 10:
		return x.Render == y.Render
	}
	panic(a)
}

// Diff names the first attribute among attrs that differs, "" if none.
func Diff(x, y *Def, attrs []int) string {
	for _, a := range attrs {
		if !EqAttr(a, x, y) {
			return AttrName[a]
		}
	}
	return ""
}

var All = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}

// Shared are the attributes the reactor's resolver also overlays.
var Shared = []int{0, 1, 2, 3, 5, 6, 7, 8, 9}

// Lib builds the library's value; the result shares no memory with d.
func (d *Def) Lib() lib.TopologyHWcTypeDef {
	var t lib.TopologyHWcTypeDef
	d.Into(&t)
	return t
}

func (d *Def) Into(t *lib.TopologyHWcTypeDef) {
	t.W, t.H, t.Out, t.In, t.Desc, t.Ext, t.Subidx, t.Rotate, t.Render = d.W, d.H, d.Out, d.In, d.Desc, d.Ext, d.Subidx, d.Rotate, d.Render
	if d.Disp != nil {
		t.Disp = &lib.TopologyHWcTypeDef_Display{W: d.Disp.W, H: d.Disp.H, Subidx: d.Disp.Subidx, Type: d.Disp.Type, Shrink: d.Disp.Shrink, Border: d.Disp.Border}
	}
	for _, s := range d.Sub {
		t.Sub = append(t.Sub, lib.TopologyHWcTypeDefSubEl{ObjType: s.Obj, X: s.X, Y: s.Y, W: s.W, H: s.H, R: s.R, Rx: s.Rx, Ry: s.Ry, Style: s.Style, Idx: s.Idx})
	}
}

// FromLib reads the library's value.
func FromLib(t *lib.TopologyHWcTypeDef) Def {
	d := Def{W: t.W, H: t.H, Out: t.Out, In: t.In, Desc: t.Desc, Ext: t.Ext, Subidx: t.Subidx, Rotate: t.Rotate, Render: t.Render}
	if t.Disp != nil {
		d.Disp = &Disp{t.Disp.W, t.Disp.H, t.Disp.Subidx, t.Disp.Type, t.Disp.Shrink, t.Disp.Border}
	}
	for _, s := range t.Sub {
		d.Sub = append(d.Sub, Sub{s.ObjType, s.X, s.Y, s.W, s.H, s.R, s.Rx, s.Ry, s.Style, s.Idx})
	}
	return d
}

// Lib builds the library's topology.
func (t *Top) Lib() *lib.Topology {
	l := &lib.Topology{Title: t.Title, TypeIndex: map[uint32]lib.TopologyHWcTypeDef{}}
	for i := range t.HWc {
		l.HWc = append(l.HWc, t.HWc[i].Lib())
	}
	for k, d := range t.Types {
		l.TypeIndex[k] = d.Lib()
	}
	return l
}

func (c *Comp) Lib() lib.TopologyHWcomponent {
	o := lib.TopologyHWcomponent{Id: c.Id, X: c.X, Y: c.Y, Txt: c.Txt, Type: c.Type, UIparent: c.Parent, UIyang: c.Yang}
	if c.Over != nil {
		td := &lib.TopologyHWcTypeDef{}
		c.Over.Into(td)
		o.TypeOverride = td
	}
	return o
}

func CompFromLib(c *lib.TopologyHWcomponent) Comp {
	o := Comp{Id: c.Id, Type: c.Type, X: c.X, Y: c.Y, Txt: c.Txt, Parent: c.UIparent, Yang: c.UIyang}
	if c.TypeOverride != nil {
		d := FromLib(c.TypeOverride)
		o.Over = &d
	}
	return o
}

// TopFromLib reads the library's topology.
func TopFromLib(l *lib.Topology) *Top {
	t := &Top{Title: l.Title, Types: map[uint32]Def{}}
	for i := range l.HWc {
		t.HWc = append(t.HWc, CompFromLib(&l.HWc[i]))
	}
	for k, d := range l.TypeIndex {
		t.Types[k] = FromLib(&d)
	}
	return t
}

func EqComp(x, y *Comp) bool {
	if x.Id != y.Id || x.Type != y.Type || x.X != y.X || x.Y != y.Y || x.Txt != y.Txt || x.Parent != y.Parent || x.Yang != y.Yang || (x.Over == nil) != (y.Over == nil) {
		return false
	}
	return x.Over == nil || Diff(x.Over, y.Over, All) == ""
}

// DiffTop names the first difference.
func DiffTop(x, y *Top) string {
	if x.Title != y.Title {
		return "title"
	}
	if len(x.HWc) != len(y.HWc) {
		return "component count"
	}
	for i := range x.HWc {
		if !EqComp(&x.HWc[i], &y.HWc[i]) {
			return fmt.Sprintf("component #%d", i)
		}
	}
	if len(x.Types) != len(y.Types) {
		return "type count"
	}
	for k, d := range x.Types {
		e, ok := y.Types[k]
		if !ok {
			return fmt.Sprintf("type %d missing", k)
		}
		if a := Diff(&d, &e, All); a != "" {
			return fmt.Sprintf("type %d attribute %s", k, a)
		}
	}
	return ""
}

// InputKind is the first comma-separated token of In.
func (d *Def) InputKind() string {
	for i := 0; i < len(d.In); i++ {
		if d.In[i] == ',' {
			return d.In[:i]
		}
	}
	return d.In
}

func in(s string, l ...string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

func (d *Def) Button() bool    { return in(d.InputKind(), "b", "b4", "b2h", "b2v", "pb") }
func (d *Def) Binary() bool    { return d.Button() || d.InputKind() == "gpi" }
func (d *Def) Pulsed() bool    { return in(d.InputKind(), "p", "pb") }
func (d *Def) Absolute() bool  { return in(d.InputKind(), "a", "av", "ah", "ar") }
func (d *Def) Intensity() bool { return in(d.InputKind(), "i", "iv", "ih", "ir") }
func (d *Def) Motorized() bool { return d.Ext == "pos" }
func (d *Def) Steps() int {
	if d.Ext != "steps" {
		return 0
	}
	lo, hi := d.Sub[0].Idx, d.Sub[0].Idx
	for _, s := range d.Sub {
		lo, hi = min(lo, s.Idx), max(hi, s.Idx)
	}
	return hi - lo + 1
}
func (d *Def) LedBar() int {
	if strings.Contains(d.Ext, "steps") {
		return len(d.Sub)
	}
	return 0
}

// DefOf returns a definition with the attributes of mask set to variant v's
// values (variants differ in every attribute).
func DefOf(mask uint, v int) Def {
	full := Variants[v]
	var d Def
	for a := 0; a < NA; a++ {
		if mask&(1<<a) != 0 {
			d.Take(a, &full)
		}
	}
	return d
}

// Variants holds pairwise different definitions.
var Variants = []Def{
	{W: 120, H: 80, Out: "rgb", In: "b4", Desc: "Button A", Ext: "steps", Subidx: 1, Rotate: 45.5, Disp: &Disp{64, 32, 1, "gray", 1, 2}, Sub: []Sub{{"r", 1, 2, 3, 4, 5, 6, 7, "fill:red", 8}, {"c", -4, 0, 0, 0, 9, 0, 0, "", 0}}, Render: "txt"},
	{W: 7, H: 300, Out: "mono", In: "av,x", Desc: "Fader <B> & \"q\"", Ext: "pos", Subidx: 3, Rotate: -90, Disp: &Disp{112, 32, -1, "", 0, 0}, Sub: []Sub{{"d", 0, -7, 50, 60, 0, 1, 1, "", 2}}, Render: "txt,hwcid"},
	{W: 65535, H: 1, Out: "rg", In: "gpi", Desc: "|", Ext: "mem", Subidx: 250, Rotate: 0.1, Disp: &Disp{0, 0, 0, "text", 3, 0}, Sub: []Sub{{"", 0, 0, 0, 0, 0, 0, 0, "", 0}}, Render: "hwcid"},
}

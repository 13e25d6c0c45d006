// Package gen holds the alphabets the enumerations are built from.
package gen

import (
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"verif.local/harness/vk"
)

// Idx and RGB build text colours.
func Idx(i int) *rwp.Color {
	return &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i)}}
}
func RGB(r, g, b uint32) *rwp.Color {
	return &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: r, Green: g, Blue: b}}
}

// TextField is one dimension of a text state with its non-base values.
type TextField struct {
	Name string
	Vals []func(*rwp.HWCText)
}

func ts(t *rwp.HWCText) *rwp.HWCText_TextStyle {
	if t.TextStyling == nil {
		t.TextStyling = &rwp.HWCText_TextStyle{}
	}
	return t.TextStyling
}
func tf(t *rwp.HWCText) *rwp.HWCText_TextStyle_Font {
	s := ts(t)
	if s.TextFont == nil {
		s.TextFont = &rwp.HWCText_TextStyle_Font{}
	}
	return s.TextFont
}
func hf(t *rwp.HWCText) *rwp.HWCText_TextStyle_Font {
	s := ts(t)
	if s.TitleFont == nil {
		s.TitleFont = &rwp.HWCText_TextStyle_Font{}
	}
	return s.TitleFont
}
func sc(t *rwp.HWCText) *rwp.HWCText_ScaleM {
	if t.Scale == nil {
		t.Scale = &rwp.HWCText_ScaleM{}
	}
	return t.Scale
}

type T = rwp.HWCText

func vals[V any](set func(*T, V), vs ...V) (out []func(*T)) {
	for _, v := range vs {
		out = append(out, func(t *T) { set(t, v) })
	}
	return
}

// TextFields returns the dimensions of a text state.
func TextFields(ascii bool) []TextField {
	title := []string{"", "Title", " a b ", "0", "\xc3\xa9\xe2\x82\xac", "=:,"}
	f := []TextField{
		{"value", vals(func(t *T, v int32) { t.IntegerValue = v }, 0, 1, -1, 32767, -2147483648, 2147483647)},
		{"fmt", vals(func(t *T, v int) { t.Formatting = rwp.HWCText_FormattingE(v) }, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)},
		{"sicon", vals(func(t *T, v int) { t.StateIcon = rwp.HWCText_StateIconE(v) }, 0, 1, 2, 3)},
		{"micon", vals(func(t *T, v int) { t.ModifierIcon = rwp.HWCText_ModifierIconE(v) }, 0, 1, 2, 3, 4, 5, 6, 7)},
		{"title", vals(func(t *T, v string) { t.Title = v }, title...)},
		{"solid", vals(func(t *T, v bool) { t.SolidHeaderBar = v }, false, true)},
		{"l1", vals(func(t *T, v string) { t.Textline1 = v }, "", "L1", " ", "7")},
		{"l2", vals(func(t *T, v string) { t.Textline2 = v }, "", "L2", "0")},
		{"value2", vals(func(t *T, v int32) { t.IntegerValue2 = v }, 0, 1, -5, -2147483648, 2147483647)},
		{"pair", vals(func(t *T, v int) { t.PairMode = rwp.HWCText_PairModeE(v) }, 0, 1, 2, 3, 4)},
		{"scale", vals(func(t *T, v int) { sc(t).ScaleType = rwp.HWCText_ScaleM_ScaleTypeE(v) }, 0, 1, 2, 3)},
		{"rlow", vals(func(t *T, v int32) { sc(t).RangeLow = v }, 0, -7, 2147483647)},
		{"rhigh", vals(func(t *T, v int32) { sc(t).RangeHigh = v }, 0, 1000, -2147483648)},
		{"llow", vals(func(t *T, v int32) { sc(t).LimitLow = v }, 0, 3, -1)},
		{"lhigh", vals(func(t *T, v int32) { sc(t).LimitHigh = v }, 0, 9, -9)},
		{"face", vals(func(t *T, v int) { tf(t).FontFace = rwp.HWCText_TextStyle_Font_FontFaceE(v) }, 0, 1, 2, 4, 7)},
		{"tw", vals(func(t *T, v uint32) { tf(t).TextWidth = v }, 0, 1, 2, 3)},
		{"th", vals(func(t *T, v uint32) { tf(t).TextHeight = v }, 0, 1, 2, 3)},
		{"tface", vals(func(t *T, v int) { hf(t).FontFace = rwp.HWCText_TextStyle_Font_FontFaceE(v) }, 0, 1, 2, 4, 7)},
		{"ttw", vals(func(t *T, v uint32) { hf(t).TextWidth = v }, 0, 1, 2, 3)},
		{"tth", vals(func(t *T, v uint32) { hf(t).TextHeight = v }, 0, 1, 2, 3)},
		{"fixed", vals(func(t *T, v bool) { ts(t).FixedWidth = v }, false, true)},
		{"pad", vals(func(t *T, v uint32) { ts(t).TitleBarPadding = v }, 0, 1, 2, 3)},
		{"spacing", vals(func(t *T, v uint32) { ts(t).ExtraCharacterSpacing = v }, 0, 1, 2, 4, 7)},
		{"size", vals(func(t *T, v uint32) { ts(t).UnformattedFontSize = v }, 0, 1, 2, 7)},
		{"inv", vals(func(t *T, v bool) { t.Inverted = v }, false, true)},
		{"pix", vals(func(t *T, v *rwp.Color) { t.PixelColor = v }, nil, Idx(1), Idx(31), RGB(255, 85, 170), RGB(0, 0, 0))},
		{"bg", vals(func(t *T, v *rwp.Color) { t.BackgroundColor = v }, nil, Idx(2), Idx(16), RGB(0, 255, 0), RGB(255, 255, 255))},
	}
	return f
}

// TextBases are the vectors deviations are taken from.
func TextBases() []func() *rwp.HWCText {
	full := func(f rwp.HWCText_FormattingE) func() *rwp.HWCText {
		return func() *rwp.HWCText {
			return &rwp.HWCText{IntegerValue: 42, Formatting: f, StateIcon: 2, ModifierIcon: 5, Title: "Ttl", SolidHeaderBar: true, Textline1: "one", Textline2: "two",
				IntegerValue2: 17, PairMode: 3, Scale: &rwp.HWCText_ScaleM{ScaleType: 2, RangeLow: -10, RangeHigh: 90, LimitLow: -5, LimitHigh: 80},
				TextStyling: &rwp.HWCText_TextStyle{TitleFont: &rwp.HWCText_TextStyle_Font{FontFace: 2, TextHeight: 1, TextWidth: 2},
					TextFont: &rwp.HWCText_TextStyle_Font{FontFace: 1, TextHeight: 2, TextWidth: 1}, FixedWidth: true, TitleBarPadding: 2, ExtraCharacterSpacing: 3, UnformattedFontSize: 2},
				Inverted: true, PixelColor: RGB(255, 170, 0), BackgroundColor: Idx(5)}
		}
	}
	return []func() *rwp.HWCText{
		func() *rwp.HWCText { return &rwp.HWCText{} },
		func() *rwp.HWCText { return &rwp.HWCText{Formatting: 7, Title: "T", Textline1: "a"} },
		full(1), full(10), full(7),
	}
}

type pick struct{ f, v int }

// Deviations runs body on base with every choice of at most depth fields set
// to every one of their values.
func Deviations(c *vk.Check, base func() *rwp.HWCText, fields []TextField, depth int, body func(*rwp.HWCText)) {
	body(base())
	var all []pick
	for f := range fields {
		for v := range fields[f].Vals {
			all = append(all, pick{f, v})
		}
	}
	for d := 1; d <= depth; d++ {
		c.Parallel(len(all), func(i int) {
			sel := make([]pick, d)
			sel[0] = all[i]
			rec(all, fields, base, sel, 1, i, d, body, c)
		})
	}
}

func rec(all []pick, fields []TextField, base func() *rwp.HWCText, sel []pick, n, i, d int, body func(*rwp.HWCText), c *vk.Check) {
	if n == d {
		t := base()
		for _, p := range sel {
			fields[p.f].Vals[p.v](t)
		}
		body(t)
		return
	}
	if n == 2 && c.Expired() {
		return
	}
	for j := i + 1; j < len(all); j++ {
		if all[j].f == sel[n-1].f {
			continue
		}
		sel[n] = all[j]
		rec(all, fields, base, sel, n+1, j, d, body, c)
	}
}

// Styling builds a text style from packed 7-bit font values (3 face, 2 width, 2 height).
func Styling(text, title int, fixed bool, pad, spacing int) *rwp.HWCText_TextStyle {
	font := func(v int) *rwp.HWCText_TextStyle_Font {
		return &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(v & 7), TextWidth: uint32(v >> 3 & 3), TextHeight: uint32(v >> 5 & 3)}
	}
	return &rwp.HWCText_TextStyle{TextFont: font(text), TitleFont: font(title), FixedWidth: fixed, TitleBarPadding: uint32(pad), ExtraCharacterSpacing: uint32(spacing)}
}

// Int32s and Uint32s are boundary sets.
func Int32s() []int32 {
	return []int32{0, 1, -1, 2, 7, 9, 10, 11, 99, 100, 127, 128, -128, 255, 256, 999, 1000, -1000, 4095, 4096, 32767, 32768, -32768, -32769, 65535, 65536, 99999, 1000000, 16777216, 2147483646, 2147483647, -2147483647, -2147483648}
}
func Uint32s() []uint32 {
	return []uint32{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 99, 100, 127, 128, 255, 256, 500, 999, 1000, 3000, 4095, 65535, 65536, 99999, 1000000, 2147483647, 2147483648, 4294967294, 4294967295}
}

// Gfx builds an image state with position-dependent bytes.
func Gfx(typ, n int, off bool, x, y uint32) *rwp.HWCGfx {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i/170*31 + i/256 + typ)
	}
	g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(typ), W: uint32(n%96 + 1), H: uint32(n/96 + 1), ImageData: d}
	if off {
		g.XYoffset, g.X, g.Y = true, x, y
	}
	return g
}

// JSONTexts are JSON documents, on one and on several lines.
func JSONTexts() []string {
	return []string{`{}`, `{"a":1}`, "{\n  \"a\": [1, 2,\n 3],\r\n\t\"b\": \"x y\"\n}\n", `{"t":"a=b|c:d;e,f"}`, "{\"k\":\n\"v w\"\n}", `[]`, `{"n":{"x":"\n"}}`}
}

// NetConfigs covers every subset of the seven fields.
func NetConfigs() (out []*rwp.NetworkConfig) {
	for m := 0; m < 128; m++ {
		n := &rwp.NetworkConfig{}
		if m&1 > 0 {
			n.Dhcp = true
		}
		if m&2 > 0 {
			n.Address = "10.0.0.5"
		}
		if m&4 > 0 {
			n.Netmask = "255.255.255.0"
		}
		if m&8 > 0 {
			n.Gateway = "10.0.0.1"
		}
		if m&16 > 0 {
			n.FirstDns = "1.1.1.1"
		}
		if m&32 > 0 {
			n.SecondDns = "8.8.8.8 <&>"
		}
		if m&64 > 0 {
			n.NoDefaultRoute = true
		}
		out = append(out, n)
	}
	return
}

// RegIDs are register identifiers.
func RegIDs() []string {
	return []string{"", "A", "Z", "0", "1", "9", "10", "63", "255", "AB", "A0", "0A", "007", "ABCDEFGH", "X1Y2"}
}

// StateMask builds a state with the kinds of the mask; variant v changes the values.
func StateMask(m int, ids []uint32, v int) *rwp.HWCState {
	s := &rwp.HWCState{HWCIDs: ids}
	if m&1 > 0 {
		s.HWCMode = &rwp.HWCMode{State: rwp.HWCMode_StateE(4 + v), Output: v == 1, BlinkPattern: uint32(5 + v)}
	}
	if m&2 > 0 {
		s.HWCColor = &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(6 + v)}}
		if v == 1 {
			s.HWCColor = &rwp.HWCColor{ColorRGB: &rwp.ColorRGB{Red: 255, Blue: 100}}
		}
	}
	if m&4 > 0 {
		s.HWCExtended = &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(1 + v*4), Value: uint32(1000 + v)}
	}
	if m&8 > 0 {
		s.HWCText = &rwp.HWCText{Title: "t", IntegerValue: int32(10 + v), Inverted: v == 1, SolidHeaderBar: v == 0}
	}
	if m&16 > 0 {
		s.HWCGfx = Gfx(v, 171+v*170, v == 1, 3, 4)
	}
	if m&32 > 0 {
		s.PublishRawADCValues = &rwp.PublishRawADCValues{Enabled: v == 0}
	}
	return s
}

// InAlphabet is the message alphabet of the histories.
func InAlphabet() []func() *rwp.InboundMessage {
	msgs := []*rwp.InboundMessage{
		{FlowMessage: 1}, {FlowMessage: 2}, {FlowMessage: 3}, {},
		{Command: &rwp.Command{ClearAll: true}},
		{Command: &rwp.Command{SendPanelInfo: true, SendPanelTopology: true, SetHeartBeatTimer: &rwp.HeartBeatTimer{Value: 3000}}},
		{Command: &rwp.Command{PanelBrightness: &rwp.Brightness{LEDs: 3, OLEDs: 4}}},
		{Command: &rwp.Command{PanelBrightness: &rwp.Brightness{LEDs: 5, OLEDs: 5}}, FlowMessage: 1},
		{Registers: []*rwp.Register{{Reg: 0, Id: "A", Value: 5}, {Reg: 0, Id: "A", Value: 6}}},
		{Registers: []*rwp.Register{{Reg: 1, Id: "3", Value: 1}, {Reg: 2, Value: 2}, {Reg: 3, Id: "B", Value: 0}}},
		{States: []*rwp.HWCState{StateMask(0, nil, 0)}},
		{States: []*rwp.HWCState{{HWCIDs: []uint32{1}}}},
		{States: []*rwp.HWCState{StateMask(63, []uint32{1}, 0)}, Registers: []*rwp.Register{{Reg: 0, Id: "A", Value: 7}}, Command: &rwp.Command{Reboot: true}, FlowMessage: 2},
		{States: []*rwp.HWCState{StateMask(63, []uint32{2, 1}, 1), StateMask(3, []uint32{1}, 0)}},
		{States: []*rwp.HWCState{StateMask(16, []uint32{1}, 0), StateMask(16, []uint32{1}, 1)}},
	}
	for k := 0; k < 6; k++ {
		for v := 0; v < 2; v++ {
			msgs = append(msgs, &rwp.InboundMessage{States: []*rwp.HWCState{StateMask(1<<k, []uint32{1}, v)}})
		}
		msgs = append(msgs, &rwp.InboundMessage{States: []*rwp.HWCState{StateMask(1<<k, []uint32{1, 2}, k%2)}})
	}
	var out []func() *rwp.InboundMessage
	for _, m := range msgs {
		out = append(out, func() *rwp.InboundMessage { return proto.Clone(m).(*rwp.InboundMessage) })
	}
	return out
}

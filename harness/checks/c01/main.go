// C01: every ASCII-representable inbound message, encoded by the library and
// read by the independent grammar reader, has exactly the message's effects.
package main

import (
	"fmt"
	"strings"

	lib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"verif.local/harness/gen"
	"verif.local/harness/keep"
	"verif.local/harness/ref"
	"verif.local/harness/vk"
)

var c *vk.Check

func show(ms []*rwp.InboundMessage) any {
	var out []string
	for _, m := range ms {
		b, _ := protojson.Marshal(m)
		out = append(out, string(b))
	}
	return out
}

// one runs the encoder on the messages and compares effect for effect.
func one(kind string, ms ...*rwp.InboundMessage) {
	nEff := 0
	var canon string
	f := func() string {
		before := make([]*rwp.InboundMessage, len(ms))
		for i := range ms {
			before[i] = proto.Clone(ms[i]).(*rwp.InboundMessage)
		}
		lines := lib.InboundMessagesToRawPanelASCIIstrings(ms)
		r := &ref.InReader{}
		var got []ref.Eff
		for _, l := range lines {
			if strings.Contains(l, "\n") {
				return fmt.Sprintf("newline: produced string %q contains a line feed", l)
			}
			u := r.Unknown
			got = append(got, r.Line(l)...)
			if r.Unknown != u {
				return fmt.Sprintf("nongrammar: produced line %.200q is not part of the grammar", l)
			}
		}
		var want [][]ref.Eff
		p := ref.Panel{}
		nEff = 0
		for _, m := range before {
			e := ref.InMsg(ref.Lenient, m)
			want = append(want, e)
			p.Apply(e)
			nEff += len(e)
		}
		canon = p.Canon()
		if d := ref.Compare(want, got); d != "" {
			return fmt.Sprintf("%s; lines=%.400q", d, lines)
		}
		for i := range ms {
			if !proto.Equal(ms[i], before[i]) {
				return "mutated: the encoder changed its input message"
			}
		}
		return ""
	}
	c.Run(func() any { return map[string]any{"kind": kind, "messages": show(ms)} }, f)
	c.State(canon)
	c.Trans(nEff)
	c.Trace(1)
	if c.WantSample(kind) {
		c.Sample(kind, map[string]any{"messages": show(ms), "panel": canon})
	}
}

// long are the lengths of long things.
var long = []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1001, 1025, 5000}

func st(s *rwp.HWCState) *rwp.InboundMessage {
	return &rwp.InboundMessage{States: []*rwp.HWCState{s}}
}

func main() {
	vk.Main("C01", func(ck *vk.Check) {
		c = ck
		c.Assume("domain: mode state 0-5, text without '|' and LF, colour index 0-31, register ids [A-Z0-9]*, flag registers with numeric id and value 0/1",
			"inside one message only the order of effects on the same slot is compared; across messages the order is exact",
			"an entirely empty HWCText object and formats' don't-care fields (value under formatting 7/10/11, header bar without title, ranges with scale type 0) carry no meaning")
		ids := []uint32{1, 37, 0, 4294967295}

		c.Phase("mode: 6 states x output x 16 blink", func() {
			for s := 0; s < 6; s++ {
				for o := 0; o < 2; o++ {
					for b := 0; b < 16; b++ {
						for _, i := range ids {
							one("mode", st(&rwp.HWCState{HWCIDs: []uint32{i}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(s), Output: o == 1, BlinkPattern: uint32(b)}}))
						}
					}
				}
			}
		})
		c.Phase("extended: 16 x 4096", func() {
			c.Parallel(65536, func(i int) {
				one("ext", st(&rwp.HWCState{HWCIDs: []uint32{ids[i%3]}, HWCExtended: &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(i >> 12), Value: uint32(i & 0xFFF)}}))
			})
		})
		c.Phase("colour: 32 indices, RGB", func() {
			for i := 0; i < 32; i++ {
				one("color", st(&rwp.HWCState{HWCIDs: []uint32{7}, HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i)}}}))
				one("color", st(&rwp.HWCState{HWCIDs: []uint32{7}, HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i)}, ColorRGB: &rwp.ColorRGB{Red: 255}}}))
				one("textcolor", st(&rwp.HWCState{HWCIDs: []uint32{7}, HWCText: &rwp.HWCText{PixelColor: gen.Idx(i)}}), st(&rwp.HWCState{HWCIDs: []uint32{7}, HWCText: &rwp.HWCText{BackgroundColor: gen.Idx(i)}}))
			}
			rgb := func(r, g, b int) {
				v := &rwp.ColorRGB{Red: uint32(r), Green: uint32(g), Blue: uint32(b)}
				one("color", st(&rwp.HWCState{HWCIDs: []uint32{9}, HWCColor: &rwp.HWCColor{ColorRGB: v}}))
			}
			if c.Thorough() {
				c.Parallel(1<<24, func(i int) { rgb(i>>16, i>>8&255, i&255) })
			} else {
				lv := []int{0, 1, 2, 42, 43, 63, 64, 84, 85, 86, 127, 128, 169, 170, 171, 190, 192, 212, 213, 253, 254, 255}
				n := len(lv)
				c.Parallel(n*n*n, func(i int) { rgb(lv[i/n/n], lv[i/n%n], lv[i%n]) })
				c.Parallel(256*3*9, func(i int) {
					v, ch, o := i%256, i/256%3, i/768
					x := []int{0, 128, 255}
					t := [3]int{x[o%3], x[o/3], 0}
					p := [3]int{}
					p[ch] = v
					p[(ch+1)%3], p[(ch+2)%3] = t[0], t[1]
					rgb(p[0], p[1], p[2])
				})
			}
			// the two text colours
			q := []int{0, 84, 85, 170, 254, 255}
			c.Parallel(6*6*6*2, func(i int) {
				col := &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: uint32(q[i%6]), Green: uint32(q[i/6%6]), Blue: uint32(q[i/36%6])}}
				t := &rwp.HWCText{PixelColor: col}
				if i/216 == 1 {
					t = &rwp.HWCText{BackgroundColor: col, Title: "x"}
				}
				one("textcolor", st(&rwp.HWCState{HWCIDs: []uint32{9}, HWCText: t}))
			})
		})
		c.Phase("raw ADC", func() {
			for _, i := range ids {
				for e := 0; e < 2; e++ {
					one("rawadc", st(&rwp.HWCState{HWCIDs: []uint32{i}, PublishRawADCValues: &rwp.PublishRawADCValues{Enabled: e == 1}}))
				}
			}
		})
		depth := vk.Pick(c, 3, 4)
		for bi, base := range gen.TextBases() {
			c.Phase(fmt.Sprintf("text: all <=%d-field deviations from base %d", depth, bi), func() {
				gen.Deviations(c, base, gen.TextFields(true), depth, func(t *rwp.HWCText) {
					one("text", st(&rwp.HWCState{HWCIDs: []uint32{12}, HWCText: t}))
				})
			})
		}
		c.Phase("text: packed styling integers", func() {
			n := 128 * 128 * 2
			c.Parallel(n, func(i int) {
				ts := gen.Styling(i&127, i>>7&127, i>>14&1 == 1, i%4, i/4%8)
				one("styling", st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCText: &rwp.HWCText{TextStyling: ts, IntegerValue: 5}}))
			})
			if c.Thorough() {
				c.Parallel(n*32, func(i int) {
					ts := gen.Styling(i&127, i>>7&127, i>>14&1 == 1, i>>15&3, i>>17&7)
					one("styling", st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCText: &rwp.HWCText{TextStyling: ts, IntegerValue: 5}}))
				})
			}
			for f := 0; f < 13; f++ { // every presence pattern of the optional sub-messages
				for m := 0; m < 16; m++ {
					t := &rwp.HWCText{Formatting: rwp.HWCText_FormattingE(f), IntegerValue: 3, Title: "T"}
					if m&1 > 0 {
						t.Scale = &rwp.HWCText_ScaleM{ScaleType: 1, RangeHigh: 9}
					}
					if m&2 > 0 {
						t.TextStyling = &rwp.HWCText_TextStyle{UnformattedFontSize: 2}
						if m&4 > 0 {
							t.TextStyling.TextFont = &rwp.HWCText_TextStyle_Font{FontFace: 1, TextWidth: 2, TextHeight: 3}
						}
						if m&8 > 0 {
							t.TextStyling.TitleFont = &rwp.HWCText_TextStyle_Font{FontFace: 2, TextWidth: 3, TextHeight: 1}
						}
					}
					one("presence", st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCText: t}))
				}
			}
			iv := gen.Int32s()
			c.Parallel(len(iv)*len(iv)*4*4, func(i int) { // two integers at a time, scale pairs
				a, b := iv[i%len(iv)], iv[i/len(iv)%len(iv)]
				k, f := i/len(iv)/len(iv)%4, i/len(iv)/len(iv)/4
				t := &rwp.HWCText{Formatting: []rwp.HWCText_FormattingE{0, 1, 8, 12}[f], PairMode: 1}
				switch k {
				case 0:
					t.IntegerValue, t.IntegerValue2 = a, b
				case 1:
					t.Scale = &rwp.HWCText_ScaleM{ScaleType: 1, RangeLow: a, RangeHigh: b}
				case 2:
					t.Scale = &rwp.HWCText_ScaleM{ScaleType: 2, LimitLow: a, LimitHigh: b}
				case 3:
					t.Scale = &rwp.HWCText_ScaleM{ScaleType: 3, RangeLow: a, LimitHigh: b, RangeHigh: 1, LimitLow: -1}
				}
				one("integers", st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCText: t}))
			})
		})
		c.Phase("graphics: every length, format, offset", func() {
			n := vk.Pick(c, 1400, 4200)
			c.Parallel(n*6, func(i int) {
				l := i/6 + 1
				g := gen.Gfx(i%3, l, i%6 >= 3, uint32(l%300), uint32(l%7))
				one("gfx", st(&rwp.HWCState{HWCIDs: []uint32{uint32(l%50 + 1)}, HWCGfx: g}))
			})
			for _, w := range []uint32{0, 1, 64, 255, 65535, 4294967295} {
				for _, x := range []uint32{0, 1, 4294967295} {
					for _, o := range []bool{false, true} {
						g := gen.Gfx(1, 200, o, x, w)
						g.W, g.H = w, x
						one("gfxdim", st(&rwp.HWCState{HWCIDs: []uint32{8}, HWCGfx: g}))
					}
				}
			}
		})
		c.Phase("commands: all subsets of the 16 flags", func() {
			c.Parallel(1<<ref.NumInFlags(), func(i int) {
				cm := &rwp.Command{}
				for k := 0; k < ref.NumInFlags(); k++ {
					if i>>k&1 == 1 {
						ref.SetInFlag(cm, k)
					}
				}
				one("flags", &rwp.InboundMessage{Command: cm})
			})
		})
		c.Phase("commands: numeric arguments, pairs, strings", func() {
			for k := 0; k < ref.NumInNums(); k++ {
				for _, v := range gen.Uint32s() {
					if m := ref.InNumMax(k); m != 0 && v > m {
						continue
					}
					cm := &rwp.Command{}
					ref.SetInNum(cm, k, v)
					one("num", &rwp.InboundMessage{Command: cm})
					for j := 0; j < ref.NumInNums(); j++ {
						cm := &rwp.Command{}
						ref.SetInNum(cm, k, v)
						ref.SetInNum(cm, j, 1)
						one("numpair", &rwp.InboundMessage{Command: cm})
					}
				}
			}
			for _, a := range gen.Uint32s() {
				for _, b := range gen.Uint32s() {
					one("bright", &rwp.InboundMessage{Command: &rwp.Command{PanelBrightness: &rwp.Brightness{LEDs: a, OLEDs: b}}})
				}
			}
			for r := 0; r < 3; r++ {
				one("env", &rwp.InboundMessage{Command: &rwp.Command{SimulateEnvironmentalHealth: &rwp.Environment{RunMode: rwp.Environment_RunModeE(r)}}})
			}
			for _, j := range gen.JSONTexts() {
				one("calib", &rwp.InboundMessage{Command: &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: j}}})
			}
			for _, n := range gen.NetConfigs() {
				one("net", &rwp.InboundMessage{Command: &rwp.Command{SetNetworkConfig: n}})
			}
			for f := 0; f < 4; f++ {
				one("flow", &rwp.InboundMessage{FlowMessage: rwp.InboundMessage_FlowMsg(f)})
			}
		})
		c.Phase("registers", func() {
			for r := 0; r < 4; r++ {
				for _, i := range gen.RegIDs() {
					for _, v := range gen.Uint32s() {
						if r == 1 && (strings.Trim(i, "0123456789") != "" || i == "" || len(i) > 1 && i[0] == '0' || v > 1) {
							continue
						}
						one("reg", &rwp.InboundMessage{Registers: []*rwp.Register{{Reg: rwp.Register_RegisterE(r), Id: i, Value: v}}})
					}
				}
			}
		})
		alpha := gen.InAlphabet()
		c.Phase("state combinations: every subset of the 6 state kinds x id lists", func() {
			lists := [][]uint32{{}, {1}, {1, 2}, {2, 1, 2}, {1, 2, 3, 4, 5, 6, 7}}
			for m := 0; m < 64; m++ {
				for li, l := range lists {
					for m2 := 0; m2 < 64; m2++ { // a second state overlapping it in the same message
						a, b := gen.StateMask(m, l, 0), gen.StateMask(m2, []uint32{2}, 1)
						if li > 0 || m2 == 0 {
							one("combo", &rwp.InboundMessage{States: []*rwp.HWCState{a, b}})
						}
					}
				}
			}
		})
		c.Phase("long histories, messages, lists and texts", func() {
			c.Parallel(len(long), func(k int) {
				n := long[k]
				for _, step := range []int{1, 5} {
					var ms []*rwp.InboundMessage
					for i := 0; i < n; i++ {
						ms = append(ms, alpha[i*step%len(alpha)]())
					}
					one("long", ms...)
				}
				var sts []*rwp.HWCState
				var rs []*rwp.Register
				var ids []uint32
				for i := 0; i < n; i++ {
					sts = append(sts, gen.StateMask(1+i%63, []uint32{uint32(i)}, i%2))
					rs = append(rs, &rwp.Register{Reg: rwp.Register_RegisterE(i % 4), Id: fmt.Sprint(i), Value: uint32(i % 2)})
					ids = append(ids, uint32(i*7))
				}
				one("long", &rwp.InboundMessage{States: sts, Registers: rs})
				for _, m := range []int{1, 2, 4, 8, 16, 32, 63} {
					one("long", st(gen.StateMask(m, ids, 0)))
				}
				s := strings.Repeat("A long text. ", n/13+1)[:n] + "!"
				for _, f := range []rwp.HWCText_FormattingE{7, 10, 0} {
					one("long", st(&rwp.HWCState{HWCIDs: []uint32{1, 2}, HWCText: &rwp.HWCText{Formatting: f, Title: s, Textline1: "1" + s, Textline2: s + "2", PairMode: 1}}))
				}
				for typ := 0; typ < 3; typ++ {
					one("long", st(&rwp.HWCState{HWCIDs: []uint32{1, 2}, HWCGfx: gen.Gfx(typ, n*170-1, typ == 1, 3, 4)}))
				}
			})
		})
		c.Phase("results kept and changed by the caller: all pairs of calls", func() {
			its := append([]func() *rwp.InboundMessage{}, alpha...)
			for i := 0; i < 48; i++ {
				its = append(its, func() *rwp.InboundMessage {
					return &rwp.InboundMessage{States: []*rwp.HWCState{gen.StateMask(1+i, []uint32{1, uint32(i)}, i%2)}}
				})
			}
			keep.Encoder(c, lib.InboundMessagesToRawPanelASCIIstrings, its)
		})
		for d := 1; d <= vk.Pick(c, 3, 4); d++ {
			c.Phase(fmt.Sprintf("histories: all sequences of %d messages over an alphabet of %d", d, len(alpha)), func() {
				n := 1
				for i := 0; i < d; i++ {
					n *= len(alpha)
				}
				c.Parallel(n, func(i int) {
					var ms []*rwp.InboundMessage
					for k := 0; k < d; k++ {
						ms = append(ms, alpha[i%len(alpha)]())
						i /= len(alpha)
					}
					one("history", ms...)
				})
			})
		}
	})
}

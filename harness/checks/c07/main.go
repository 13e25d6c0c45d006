// C07: every produced ASCII string is exactly one line; flattening loses no content.
package main

import (
	"fmt"
	"strings"

	lib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"verif.local/harness/ref"
	"verif.local/harness/vk"
)

var c *vk.Check

// field is one text field of a message: set puts a text there, flat names the
// line whose payload must keep the text's non-blank characters ("" if the field
// is not one of the flattened ones).
type field struct {
	name string
	flat string
	msg  func(string) proto.Message
}

type I = rwp.InboundMessage
type O = rwp.OutboundMessage

func text(t *rwp.HWCText) *I {
	return &I{States: []*rwp.HWCState{{HWCIDs: []uint32{1, 2}, HWCText: t}}}
}

func fields() []field {
	f := []field{
		{"Title", "", func(s string) proto.Message { return text(&rwp.HWCText{Title: s}) }},
		{"Textline1", "", func(s string) proto.Message { return text(&rwp.HWCText{Textline1: s}) }},
		{"Textline2", "", func(s string) proto.Message { return text(&rwp.HWCText{Textline2: s, PairMode: 1}) }},
		{"allText", "", func(s string) proto.Message {
			return text(&rwp.HWCText{Title: s, Textline1: s, Textline2: s, Formatting: 10})
		}},
		{"SetCalibrationProfile", "SetCalibrationProfile=", func(s string) proto.Message {
			return &I{Command: &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: s}}}
		}},
		{"SetNetworkConfig", "", func(s string) proto.Message {
			return &I{Command: &rwp.Command{SetNetworkConfig: &rwp.NetworkConfig{Address: s, Netmask: s, Gateway: s, FirstDns: s, SecondDns: s}}}
		}},
		{"Model", "", func(s string) proto.Message { return &O{PanelInfo: &rwp.PanelInfo{Model: s}} }},
		{"Serial", "", func(s string) proto.Message { return &O{PanelInfo: &rwp.PanelInfo{Serial: s}} }},
		{"SoftwareVersion", "", func(s string) proto.Message { return &O{PanelInfo: &rwp.PanelInfo{SoftwareVersion: s}} }},
		{"Name", "", func(s string) proto.Message { return &O{PanelInfo: &rwp.PanelInfo{Name: s}} }},
		{"Platform", "", func(s string) proto.Message { return &O{PanelInfo: &rwp.PanelInfo{Platform: s}} }},
		{"LockedToIPs", "", func(s string) proto.Message { return &O{PanelInfo: &rwp.PanelInfo{LockedToIPs: []string{s, "x", s}}} }},
		{"Connections", "", func(s string) proto.Message { return &O{Connections: &rwp.Connections{Connection: []string{"y", s}}} }},
		{"NetworkConfig", "", func(s string) proto.Message {
			return &O{NetworkConfig: &rwp.NetworkConfig{Address: s, SecondDns: s}}
		}},
		{"PanelTopology.Json", "_panelTopology_HWC=", func(s string) proto.Message { return &O{PanelTopology: &rwp.PanelTopology{Json: s}} }},
		{"PanelTopology.Svgbase", "_panelTopology_svgbase=", func(s string) proto.Message { return &O{PanelTopology: &rwp.PanelTopology{Svgbase: s}} }},
		{"BurninProfile", "_burninProfile=", func(s string) proto.Message { return &O{BurninProfile: &rwp.BurninProfile{Json: s}} }},
		{"CalibrationProfile", "_calibrationProfile=", func(s string) proto.Message {
			return &O{CalibrationProfile: &rwp.CalibrationProfile{Json: s}}
		}},
		{"DefaultCalibrationProfile", "_defaultCalibrationProfile=", func(s string) proto.Message {
			return &O{DefaultCalibrationProfile: &rwp.CalibrationProfile{Json: s}}
		}},
		{"ErrorMessage", "ErrorMsg=", func(s string) proto.Message { return &O{ErrorMessage: &rwp.Message{Message: s}} }},
		{"Message", "Msg=", func(s string) proto.Message { return &O{Message: &rwp.Message{Message: s}} }},
	}
	for r := 0; r < 4; r++ {
		f = append(f, field{fmt.Sprint("inbound register id ", r), "", func(s string) proto.Message {
			return &I{Registers: []*rwp.Register{{Reg: rwp.Register_RegisterE(r), Id: s, Value: 1}}}
		}}, field{fmt.Sprint("outbound register id ", r), "", func(s string) proto.Message {
			return &O{Registers: []*rwp.Register{{Reg: rwp.Register_RegisterE(r), Id: s, Value: 1}}}
		}})
	}
	return f
}

func encode(ms []proto.Message) []string {
	var in []*I
	var out []*O
	for _, m := range ms {
		switch m := m.(type) {
		case *I:
			in = append(in, m)
		case *O:
			out = append(out, m)
		}
	}
	var r []string
	if in != nil {
		r = append(r, lib.InboundMessagesToRawPanelASCIIstrings(in)...)
	}
	if out != nil {
		r = append(r, lib.OutboundMessagesToRawPanelASCIIstrings(out)...)
	}
	return r
}

func show(ms []proto.Message) any {
	var out []string
	for _, m := range ms {
		b, _ := protojson.Marshal(m)
		out = append(out, string(b))
	}
	return out
}

// check encodes the messages; flat maps line prefixes to the source texts.
func check(kind string, flat map[string]string, ms ...proto.Message) {
	n := 0
	c.Run(func() any { return map[string]any{"kind": kind, "messages": show(ms)} }, func() string {
		lines := encode(ms)
		n = len(lines)
		for _, l := range lines {
			if strings.Contains(l, "\n") {
				w := strings.IndexFunc(l, func(r rune) bool { return r != '_' && r != '#' && (r < 'A' || r > 'Z') && (r < 'a' || r > 'z') })
				return fmt.Sprintf("newline %s: produced string %q contains a line feed", l[:w], l)
			}
		}
		// the stream level: write each with one LF, split at LF
		stream := ""
		if len(lines) > 0 {
			stream = strings.Join(lines, "\n") + "\n"
		}
		back := strings.Split(stream, "\n")
		if back[len(back)-1] != "" || len(back)-1 != len(lines) {
			return fmt.Sprintf("stream: %d strings became %d lines", len(lines), len(back)-1)
		}
		for p, src := range flat {
			w, ok := ref.Squash(src), false
			var got []string
			for _, l := range lines {
				if strings.HasPrefix(l, p) {
					got = append(got, l[len(p):])
					ok = ok || ref.Squash(l[len(p):]) == w
				}
			}
			if !ok && (w != "" || len(got) > 0) {
				return fmt.Sprintf("content %s: source %q flattened to %q", p, src, got)
			}
		}
		return ""
	})
	c.Trace(1)
	c.Trans(n)
	if c.WantSample(kind) {
		c.Sample(kind, map[string]any{"messages": show(ms), "lines": encode(ms)})
	}
}

func one(kind string, f field, s string) {
	fl := map[string]string{}
	if f.flat != "" {
		fl[f.flat] = s
	}
	c.State(f.name + "\x00" + s)
	check(kind, fl, f.msg(s))
}

func words(al []string, n int, body func(string)) {
	t := 1
	for i := 0; i < n; i++ {
		t *= len(al)
	}
	c.Parallel(t, func(i int) {
		var b strings.Builder
		for k := 0; k < n; k++ {
			b.WriteString(al[i%len(al)])
			i /= len(al)
		}
		body(b.String())
	})
}

func main() {
	vk.Main("C07", func(ck *vk.Check) {
		c = ck
		c.Assume("content of the flattened payloads is compared up to Unicode white space; for the other text fields only the one-line rule is claimed")
		fs := fields()
		al := []string{"\n", "\r", " ", "a", ">"}
		for n := 0; n <= vk.Pick(c, 7, 9); n++ {
			c.Phase(fmt.Sprintf("every text field x all strings of length %d over LF CR blank a >", n), func() {
				for _, f := range fs {
					words(al, n, func(s string) { one("text", f, s) })
				}
			})
		}
		c.Phase("every text field x every code point next to a line feed", func() {
			c.Parallel(len(fs), func(i int) {
				for r := rune(0); r < rune(vk.Pick(c, 0x600, 0x3100)); r++ {
					one("char", fs[i], "a"+string(r)+"\n"+string(r)+"b")
				}
				for _, r := range []rune{0x2028, 0x2029, 0xFEFF, 0x3000, 0x1F600, 0xFFFD, 0x200B} {
					one("char", fs[i], "a"+string(r)+"\n"+string(r)+"b\n"+string(r))
				}
				for b := 0; b < 256; b++ {
					one("byte", fs[i], string([]byte{'x', byte(b), '\n', byte(b)}))
				}
			})
		})
		svgAl := []string{"<", ">", "\n", " ", "a", "\"", "/", "\r\n"}
		for n := 1; n <= vk.Pick(c, 7, 9); n++ {
			c.Phase(fmt.Sprintf("SVG and JSON payloads: all strings of %d tokens of 8", n), func() {
				for _, f := range fs {
					if f.flat == "_panelTopology_svgbase=" || f.flat == "_panelTopology_HWC=" || f.flat == "Msg=" {
						words(svgAl, n, func(s string) { one("tokens", f, s) })
					}
				}
			})
		}
		docs := []string{
			`<svg width="10" height="20"><path d="M0 0 L1 1 L2,2 Z"/><text x="1">one two</text><!-- c > d --></svg>`,
			`{"HWc":[{"id":1,"x":10,"txt":"A > B"},{"id":2}],"typeIndex":{"1":{"w":5}}}`,
			`<?xml version="1.0"?><svg><style>a > b { fill: red }</style><g id="x"><rect a='>'/></g></svg>`,
		}
		brk := []string{"\n", "\r\n", "\n\n", "\n  ", "  \n\t"}
		c.Phase("documents broken at every one, two and three positions", func() {
			for _, d := range docs {
				n := len(d) + 1
				for _, f := range fs {
					if f.flat == "" {
						continue
					}
					c.Parallel(n*n, func(i int) {
						a, b := i/n, i%n
						if a > b {
							return
						}
						for _, x := range brk {
							one("breaks", f, d[:a]+x+d[a:b]+x+d[b:])
						}
						if f.flat == "_panelTopology_svgbase=" || c.Thorough() {
							for e := b; e < n; e += vk.Pick(c, 1, 1) {
								one("breaks", f, d[:a]+"\n"+d[a:b]+"\n"+d[b:e]+"\n"+d[e:])
							}
						}
					})
				}
				for _, f := range fs { // every character on its own line
					one("dribble", f, strings.Join(strings.Split(d, ""), "\n"))
				}
			}
		})
		c.Phase("two and three text fields at a time, several messages", func() {
			ts := []string{"a\nb", "\n", "x>\ny\n", "plain"}
			for i := range fs {
				for j := range fs {
					for _, s := range ts {
						for _, t := range ts {
							fl := map[string]string{}
							if fs[i].flat != "" {
								fl[fs[i].flat] = s
							}
							if fs[j].flat != "" && i != j {
								fl[fs[j].flat] = t
							}
							a, b := fs[i].msg(s), fs[j].msg(t)
							if i != j {
								check("pair", fl, a, b)
							}
							// merged into one message when both have the same direction
							if i != j && a.ProtoReflect().Descriptor() == b.ProtoReflect().Descriptor() && fs[i].name != "allText" {
								m := proto.Clone(a)
								proto.Merge(m, b)
								check("merged", fl, m)
							}
						}
					}
				}
			}
		})
	})
}

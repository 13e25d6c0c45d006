// C03: every ASCII-representable outbound message, encoded by the library and
// read by the independent grammar reader, reports exactly what it carries.
package main

import (
	"fmt"
	"math"
	"strings"

	lib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"verif.local/harness/gen"
	"verif.local/harness/keep"
	"verif.local/harness/ref"
	"verif.local/harness/vk"
)

var c *vk.Check

func show(ms []*rwp.OutboundMessage) any {
	var out []string
	for _, m := range ms {
		b, _ := protojson.Marshal(m)
		out = append(out, string(b))
	}
	return out
}

func one(kind string, ms ...*rwp.OutboundMessage)   { run(kind, false, ms) }
func loose(kind string, ms ...*rwp.OutboundMessage) { run(kind, true, ms) }

// run encodes the messages and compares report for report. squash compares the
// payload texts up to white space.
func run(kind string, squash bool, ms []*rwp.OutboundMessage) {
	nEff := 0
	var canon string
	f := func() string {
		before := make([]*rwp.OutboundMessage, len(ms))
		for i := range ms {
			before[i] = proto.Clone(ms[i]).(*rwp.OutboundMessage)
		}
		lines := lib.OutboundMessagesToRawPanelASCIIstrings(ms)
		r := &ref.OutReader{Squash: squash}
		var got []ref.Eff
		for _, l := range lines {
			if strings.Contains(l, "\n") {
				return fmt.Sprintf("newline: produced string %q contains a line feed", l)
			}
			u := r.Unknown
			got = append(got, r.Line(l)...)
			if r.Unknown != u {
				return fmt.Sprintf("nongrammar: produced line %.200q is not part of the grammar", l)
			}
		}
		var want [][]ref.Eff
		p := ref.Panel{}
		nEff = 0
		for _, m := range before {
			e := ref.OutMsg(m, squash)
			want = append(want, e)
			p.Apply(e)
			nEff += len(e)
		}
		canon = p.Canon()
		if d := ref.CompareOut(want, got); d != "" {
			return fmt.Sprintf("%s; lines=%.400q", d, lines)
		}
		for i := range ms {
			if !proto.Equal(ms[i], before[i]) {
				return "mutated: the encoder changed its input message"
			}
		}
		return ""
	}
	c.Run(func() any { return map[string]any{"kind": kind, "messages": show(ms)} }, f)
	c.State(canon)
	c.Trans(nEff)
	c.Trace(1)
	if c.WantSample(kind) {
		c.Sample(kind, map[string]any{"messages": show(ms), "reports": canon})
	}
}

type M = rwp.OutboundMessage

func main() {
	vk.Main("C03", func(ck *vk.Check) {
		c = ck
		c.Assume("domain: text without LF compared exactly; payload texts (JSON, SVG, messages) with line breaks compared up to white space; list entries non-empty, trimmed and without ';'; register ids [A-Z0-9]*, flag registers numeric id and value 0/1; SysStat temperatures compared at the wire's 1 and 2 decimals",
			"zero run-time counters, zero MaxClients and BluePillReady=false are the protocol's defaults and need no line",
			"order inside one message is compared per slot, for events and for registers; across messages it is exact")
		c.Phase("events: kind x id x edge x value", func() {
			ids := []uint32{0, 1, 9, 10, 37, 255, 256, 65535, 65536, 2147483647, 2147483648, 4294967295}
			for i := uint32(2); i < 300; i += 7 {
				ids = append(ids, i)
			}
			edges := []int{0, 1, 2, 4, 8, 16, 3, 5, 31, 100, 2147483647}
			iv, uv := gen.Int32s(), gen.Uint32s()
			for v := int32(-300); v <= 300; v++ {
				iv = append(iv, v)
			}
			for v := uint32(0); v <= 1100; v++ {
				uv = append(uv, v)
			}
			c.Parallel(len(ids), func(i int) {
				ev := func(e *rwp.HWCEvent) { e.HWCID = ids[i]; one("event", &M{Events: []*rwp.HWCEvent{e}}) }
				for _, e := range edges {
					for p := 0; p < 2; p++ {
						ev(&rwp.HWCEvent{Binary: &rwp.BinaryEvent{Pressed: p == 1, Edge: rwp.BinaryEvent_EdgeID(e)}})
					}
				}
				for _, v := range iv {
					ev(&rwp.HWCEvent{Pulsed: &rwp.PulsedEvent{Value: v}})
					ev(&rwp.HWCEvent{Speed: &rwp.SpeedEvent{Value: v}})
				}
				for _, v := range uv {
					ev(&rwp.HWCEvent{Absolute: &rwp.AbsoluteEvent{Value: v}})
					ev(&rwp.HWCEvent{RawAnalog: &rwp.RawAnalogEvent{Value: v}})
				}
			})
			// every subset of the five kinds in one event record, twice, with a timestamp
			mk := func(m int, id uint32) *rwp.HWCEvent {
				e := &rwp.HWCEvent{HWCID: id, Timestamp: 12345}
				if m&1 > 0 {
					e.Binary = &rwp.BinaryEvent{Pressed: id%2 == 1, Edge: rwp.BinaryEvent_EdgeID(id % 17)}
				}
				if m&2 > 0 {
					e.Pulsed = &rwp.PulsedEvent{Value: -int32(id)}
				}
				if m&4 > 0 {
					e.Absolute = &rwp.AbsoluteEvent{Value: id * 3}
				}
				if m&8 > 0 {
					e.Speed = &rwp.SpeedEvent{Value: int32(id) - 500}
				}
				if m&16 > 0 {
					e.RawAnalog = &rwp.RawAnalogEvent{Value: id + 4000}
				}
				return e
			}
			for a := 0; a < 32; a++ {
				for b := 0; b < 32; b++ {
					one("eventpair", &M{Events: []*rwp.HWCEvent{mk(a, 8), mk(b, 3)}})
					one("eventpair", &M{Events: []*rwp.HWCEvent{mk(a, 8), mk(b, 8)}}, &M{Events: []*rwp.HWCEvent{mk(b, 1)}})
				}
			}
			// many events per message: every order of five events
			perm(5, func(p []int) {
				var es []*rwp.HWCEvent
				for _, k := range p {
					es = append(es, mk(1<<k, uint32(k%3+1)))
				}
				one("eventorder", &M{Events: es})
			})
			for _, n := range []int{0, 1, 2, 10, 100, 1000} {
				var es []*rwp.HWCEvent
				for k := 0; k < n; k++ {
					es = append(es, mk(1<<(k%5), uint32(k*37%41)))
				}
				one("manyevents", &M{Events: es})
			}
		})
		c.Phase("availability maps", func() {
			vals := gen.Uint32s()
			for _, k := range vals {
				for _, v := range vals {
					one("map", &M{HWCavailability: map[uint32]uint32{k: v}})
				}
			}
			ids := []uint32{0, 1, 2, 9, 10, 4294967295}
			c.Parallel(729*4, func(i int) { // every map of six ids to absent / 0 / v
				m := map[uint32]uint32{}
				x := i / 4
				for _, id := range ids {
					if x%3 > 0 {
						m[id] = uint32(x%3-1) * []uint32{1, 2, id, 4294967295}[i%4]
					}
					x /= 3
				}
				one("maps", &M{HWCavailability: m})
			})
			m := map[uint32]uint32{}
			for i := uint32(0); i < 500; i++ {
				m[i*3] = i * 7 % 11
			}
			one("maps", &M{HWCavailability: m})
		})
		texts := textAlphabet()
		c.Phase("identity: every subset x texts", func() {
			set := func(p *rwp.PanelInfo, k int, v string) {
				*[]*string{&p.Model, &p.Serial, &p.SoftwareVersion, &p.Name, &p.Platform}[k] = v
			}
			for k := 0; k < 5; k++ {
				for _, t := range texts {
					p := &rwp.PanelInfo{}
					set(p, k, t)
					one("identity", &M{PanelInfo: p})
				}
				for r := 0; r < 0x250; r++ { // every code point of the first blocks, alone and embedded
					if r == '\n' {
						continue
					}
					p := &rwp.PanelInfo{}
					set(p, k, "a"+string(rune(r))+"b")
					one("identitychar", &M{PanelInfo: p})
				}
			}
			for m := 0; m < 512; m++ {
				for t := 0; t < 7; t++ {
					p := &rwp.PanelInfo{PanelType: rwp.PanelInfo_PanelTypeE(t)}
					for k := 0; k < 5; k++ {
						if m>>k&1 == 1 {
							set(p, k, fmt.Sprint("v", k))
						}
					}
					if m&32 > 0 {
						p.BluePillReady = true
					}
					if m&64 > 0 {
						p.MaxClients = 10
					}
					if m&128 > 0 {
						p.LockedToIPs = []string{"10.0.0.1", "10.0.0.2"}
					}
					if m&256 > 0 {
						p.RawPanelSupport = &rwp.RawPanelSupport{Binary: true, Calibration: true}
					}
					one("identityset", &M{PanelInfo: p})
				}
			}
			for _, v := range gen.Uint32s() {
				one("maxclients", &M{PanelInfo: &rwp.PanelInfo{MaxClients: v}})
			}
			for _, l := range lists() {
				one("lists", &M{PanelInfo: &rwp.PanelInfo{LockedToIPs: l}})
				one("lists", &M{Connections: &rwp.Connections{Connection: l}})
			}
		})
		c.Phase("capabilities: all 8192 subsets", func() {
			c.Parallel(1<<len(ref.Caps), func(i int) {
				s := &rwp.RawPanelSupport{}
				for k := range ref.Caps {
					if i>>k&1 == 1 {
						*ref.Caps[k].P(s) = true
					}
				}
				one("support", &M{PanelInfo: &rwp.PanelInfo{RawPanelSupport: s}})
			})
		})
		payload := []func(string) *M{
			func(s string) *M { return &M{PanelTopology: &rwp.PanelTopology{Json: s}} },
			func(s string) *M { return &M{PanelTopology: &rwp.PanelTopology{Svgbase: s}} },
			func(s string) *M { return &M{PanelTopology: &rwp.PanelTopology{Svgbase: s, Json: s + "}"}} },
			func(s string) *M { return &M{BurninProfile: &rwp.BurninProfile{Json: s}} },
			func(s string) *M { return &M{CalibrationProfile: &rwp.CalibrationProfile{Json: s}} },
			func(s string) *M { return &M{DefaultCalibrationProfile: &rwp.CalibrationProfile{Json: s}} },
			func(s string) *M { return &M{ErrorMessage: &rwp.Message{Message: s}} },
			func(s string) *M { return &M{Message: &rwp.Message{Message: s}} },
		}
		c.Phase("payloads: 8 kinds x texts, line breaks anywhere", func() {
			var docs []string
			docs = append(docs, texts...)
			docs = append(docs, gen.JSONTexts()...)
			docs = append(docs, svgs()...)
			for _, p := range payload {
				for _, d := range docs {
					loose("payload", p(d))
				}
				// every string of length <= n over a small alphabet
				al := []string{"<", ">", "\n", " ", "a", "\"", "\r"}
				n := vk.Pick(c, 6, 7)
				all := 1
				for i := 0; i < n; i++ {
					all *= len(al)
				}
				c.Parallel(all, func(i int) {
					var b strings.Builder
					for k := 0; k < n; k++ {
						b.WriteString(al[i%len(al)])
						i /= len(al)
					}
					loose("payloadtext", p(b.String()))
				})
				// single-line payloads are not altered at all (no leading/trailing blanks)
				for _, d := range docs {
					if !strings.ContainsAny(d, "\r\n") && strings.TrimSpace(d) == d && (d == "" || strings.HasSuffix(d, ">") || !isSVG(p)) {
						one("payload1", p(d))
					}
				}
			}
		})
		c.Phase("numbers, sleep, network, statistics, health", func() {
			for _, v := range gen.Uint32s() {
				one("num", &M{SleepTimeout: &rwp.SleepTimeout{Value: v}})
				one("num", &M{HeartBeatTimer: &rwp.HeartBeatTimer{Value: v}})
				one("num", &M{DimmedGain: &rwp.DimmedGain{Value: v}})
				for m := 0; m < 16; m++ {
					r := &rwp.RunTimeStats{}
					for k, p := range []*uint32{&r.BootsCount, &r.TotalUptime, &r.SessionUptime, &r.ScreenSaveOnTime} {
						if m>>k&1 == 1 {
							*p = v - uint32(k)*(v/7)
						}
					}
					one("runtime", &M{RunTimeStats: r})
				}
			}
			for i := 0; i < 2; i++ {
				one("sleep", &M{SleepState: &rwp.SleepState{IsSleeping: i == 1}})
			}
			for f := 0; f < 7; f++ {
				one("flow", &M{FlowMessage: rwp.OutboundMessage_FlowMsg(f)})
			}
			one("flow", &M{FlowMessage: 100})
			for e := 0; e < 3; e++ {
				one("env", &M{EnvironmentalHealth: &rwp.Environment{RunMode: rwp.Environment_RunModeE(e)}})
			}
			for _, n := range gen.NetConfigs() {
				one("net", &M{NetworkConfig: n})
			}
		})
		c.Phase("system statistics: fields, pairs, all flag subsets", func() {
			one("sysstat", &M{SysStat: &rwp.SystemStat{}})
			var dev []func(*rwp.SystemStat)
			for i, f := range ref.Stats {
				switch f.Kind {
				case 'u':
					for _, v := range gen.Uint32s() {
						dev = append(dev, func(s *rwp.SystemStat) { *f.U(s) = v })
					}
				case 'i':
					for _, v := range gen.Int32s() {
						dev = append(dev, func(s *rwp.SystemStat) { *f.I(s) = v })
					}
				case '1', '2':
					for _, v := range []float32{0.04, 0.05, 0.1, 0.9, 0.95, 0.994, 0.995, 0.999, 1, 1.25, 9.99, 36.6, 99.95, 100, 12345.67, -0.04, -0.06, -5.5, -40, 1e7, 16777216, float32(i)} {
						dev = append(dev, func(s *rwp.SystemStat) { *f.F(s) = v })
					}
				case 'b':
					dev = append(dev, func(s *rwp.SystemStat) { *f.B(s) = true })
				}
			}
			c.Parallel(len(dev)*len(dev), func(i int) {
				s := &rwp.SystemStat{}
				dev[i/len(dev)](s)
				dev[i%len(dev)](s)
				one("sysstat", &M{SysStat: s})
			})
			c.Parallel(256, func(i int) {
				s := &rwp.SystemStat{CPUUsage: 7, CPUTemp: 45.5}
				k := 0
				for _, f := range ref.Stats {
					if f.Kind == 'b' {
						*f.B(s) = i>>k&1 == 1
						k++
					}
				}
				one("sysstatflags", &M{SysStat: s})
			})
			n := vk.Pick(c, 3000, 30000)
			c.Parallel(n, func(i int) { // every tenth / hundredth
				one("sysstatfloat", &M{SysStat: &rwp.SystemStat{CPUTemp: float32(i) / 100, ExtTemp: float32(-i) / 100, CPUVoltage: float32(i) / 1000}})
			})
			_ = math.MaxInt32
		})
		c.Phase("registers", func() {
			for r := 0; r < 4; r++ {
				for _, i := range gen.RegIDs() {
					for _, v := range gen.Uint32s() {
						if r == 1 && (strings.Trim(i, "0123456789") != "" || i == "" || len(i) > 1 && i[0] == '0' || v > 1) {
							continue
						}
						one("reg", &M{Registers: []*rwp.Register{{Reg: rwp.Register_RegisterE(r), Id: i, Value: v}}})
					}
				}
			}
			perm(5, func(p []int) {
				var rs []*rwp.Register
				for _, k := range p {
					rs = append(rs, &rwp.Register{Reg: rwp.Register_RegisterE(k % 4), Id: fmt.Sprint(k / 4), Value: uint32(k % 2)})
				}
				one("regorder", &M{Registers: rs})
			})
		})
		parts := Parts()
		c.Phase(fmt.Sprintf("messages with several parts: all subsets of <= %d of %d parts", vk.Pick(c, 3, 4), len(parts)), func() {
			d := vk.Pick(c, 3, 4)
			var rec func(m *M, from, left int)
			rec = func(m *M, from, left int) {
				one("parts", m)
				if left == 0 || c.Expired() {
					return
				}
				for i := from; i < len(parts); i++ {
					n := proto.Clone(m).(*M)
					proto.Merge(n, parts[i])
					rec(n, i+1, left-1)
				}
			}
			c.Parallel(len(parts), func(i int) { rec(proto.Clone(parts[i]).(*M), i+1, d-1) })
			all := &M{}
			for i := range parts {
				proto.Merge(all, parts[i])
				one("allparts", proto.Clone(all).(*M), proto.Clone(all).(*M))
			}
		})
		c.Phase("long histories, messages, lists and texts", func() {
			long := []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1001, 1025, 5000}
			c.Parallel(len(long), func(k int) {
				n := long[k]
				for _, step := range []int{1, 5} {
					var ms []*M
					for i := 0; i < n; i++ {
						ms = append(ms, proto.Clone(parts[i*step%len(parts)]).(*M))
					}
					one("long", ms...)
				}
				av := map[uint32]uint32{}
				var es []*rwp.HWCEvent
				var rs []*rwp.Register
				var ips []string
				for i := 0; i < n; i++ {
					av[uint32(i*3)] = uint32(i % 5)
					es = append(es, []*rwp.HWCEvent{
						{HWCID: uint32(i), Binary: &rwp.BinaryEvent{Pressed: i%2 == 0, Edge: 4}},
						{HWCID: uint32(i), Pulsed: &rwp.PulsedEvent{Value: int32(i) - 40}},
						{HWCID: uint32(i), Absolute: &rwp.AbsoluteEvent{Value: uint32(i)}},
						{HWCID: uint32(i), Speed: &rwp.SpeedEvent{Value: int32(40 - i)}},
						{HWCID: uint32(i), RawAnalog: &rwp.RawAnalogEvent{Value: uint32(i)}}}[i%5])
					rs = append(rs, &rwp.Register{Reg: rwp.Register_RegisterE(i % 4), Id: fmt.Sprint(i), Value: uint32(i % 2)})
					ips = append(ips, fmt.Sprintf("10.0.%d.%d", i/256, i%256))
				}
				one("long", &M{HWCavailability: av})
				one("long", &M{Events: es})
				one("long", &M{Registers: rs})
				one("long", &M{Connections: &rwp.Connections{Connection: ips}})
				one("long", &M{PanelInfo: &rwp.PanelInfo{LockedToIPs: ips}})
				one("long", &M{HWCavailability: av, Events: es, Registers: rs})
				s := strings.Repeat("A long text. ", n/13+1)[:n] + "!"
				one("long", &M{PanelInfo: &rwp.PanelInfo{Model: s, Serial: "1" + s, Name: s + "2", SoftwareVersion: s, Platform: s + "3"}})
				one("long", &M{PanelTopology: &rwp.PanelTopology{Json: "{" + s + "}", Svgbase: "<svg>" + s + "</svg>"}})
				one("long", &M{Message: &rwp.Message{Message: s}, ErrorMessage: &rwp.Message{Message: s + "e"}, BurninProfile: &rwp.BurninProfile{Json: s + "b"}, CalibrationProfile: &rwp.CalibrationProfile{Json: s + "c"}, DefaultCalibrationProfile: &rwp.CalibrationProfile{Json: s + "d"}})
			})
		})
		c.Phase("results kept and changed by the caller: all pairs of calls", func() {
			var its []func() *M
			for _, p := range parts {
				its = append(its, func() *M { return proto.Clone(p).(*M) })
			}
			keep.Encoder(c, lib.OutboundMessagesToRawPanelASCIIstrings, its)
		})
		for d := 1; d <= vk.Pick(c, 3, 4); d++ {
			c.Phase(fmt.Sprintf("histories: all sequences of %d messages over an alphabet of %d", d, len(parts)), func() {
				n := 1
				for i := 0; i < d; i++ {
					n *= len(parts)
				}
				c.Parallel(n, func(i int) {
					var ms []*M
					for k := 0; k < d; k++ {
						ms = append(ms, proto.Clone(parts[i%len(parts)]).(*M))
						i /= len(parts)
					}
					one("history", ms...)
				})
			})
		}
	})
}

func isSVG(p func(string) *M) bool {
	m := p("x")
	return m.PanelTopology != nil && m.PanelTopology.Svgbase != ""
}

func perm(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

func textAlphabet() []string {
	return []string{"", "x", " ", "  lead and trail ", "SK_MODEL", "a=b", "=", "a:b;c,d|e", "RDY", "ping", "_model=x", "HWC#1=Down", "map=1:1", "%d %s %%", "\t", "\"quoted\" \\n \\", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", "\r", "a\rb", "0", strings.Repeat("long ", 400), "<svg>", "{\"a\":1}", "#", "$1", "(.*)"}
}

func lists() [][]string {
	return [][]string{nil, {}, {"a"}, {"10.0.0.1:5000"}, {"a", "b"}, {"b", "a"}, {"a", "a"}, {"x", "y", "z"}, {"a b", "c=d"}, {"fe80::1%eth0", "[::1]:9923", "h,i|j"}, strings.Split(strings.Repeat("ip ", 50)+"ip", " ")}
}

func svgs() []string {
	return []string{
		"<svg>\n</svg>", "<svg\n width=\"10\"\n height=\"20\">\n<path d=\"M0 0\n L1 1\n L2,2 Z\"/>\n</svg>\n",
		"<svg><text>line one\nline two</text></svg>", "<svg>\r\n  <rect\r\n x='1'/>\r\n</svg>", "<!-- c\nd -->\n<svg/>", "<svg a=\"b>\nc\"/>", "text\n", "\n\n", "<a\n/\n>",
	}
}

// Parts is one representative message per part.
func Parts() []*M {
	return []*M{
		{FlowMessage: 1}, {FlowMessage: 2}, {FlowMessage: 5},
		{PanelInfo: &rwp.PanelInfo{Model: "M1", Name: "N"}},
		{PanelInfo: &rwp.PanelInfo{Serial: "S", SoftwareVersion: "V", PanelType: 2, RawPanelSupport: &rwp.RawPanelSupport{ASCII: true, NetworkSettings: true}}},
		{PanelInfo: &rwp.PanelInfo{BluePillReady: true, MaxClients: 3, LockedToIPs: []string{"1.2.3.4"}, Platform: "P"}},
		{PanelTopology: &rwp.PanelTopology{Json: "{}", Svgbase: "<svg/>"}},
		{BurninProfile: &rwp.BurninProfile{Json: "{\"b\":1}"}},
		{CalibrationProfile: &rwp.CalibrationProfile{Json: "{\"c\":1}"}},
		{DefaultCalibrationProfile: &rwp.CalibrationProfile{Json: "{\"d\":1}"}},
		{NetworkConfig: &rwp.NetworkConfig{Dhcp: true}},
		{SleepTimeout: &rwp.SleepTimeout{Value: 5}}, {SleepState: &rwp.SleepState{IsSleeping: true}}, {SleepState: &rwp.SleepState{}},
		{HeartBeatTimer: &rwp.HeartBeatTimer{Value: 3000}}, {DimmedGain: &rwp.DimmedGain{Value: 4}},
		{Connections: &rwp.Connections{Connection: []string{"a:1", "b:2"}}},
		{RunTimeStats: &rwp.RunTimeStats{BootsCount: 1, TotalUptime: 2, SessionUptime: 3, ScreenSaveOnTime: 4}},
		{ErrorMessage: &rwp.Message{Message: "err"}}, {Message: &rwp.Message{Message: "msg"}},
		{HWCavailability: map[uint32]uint32{1: 1, 2: 0, 3: 7}}, {HWCavailability: map[uint32]uint32{2: 2}},
		{EnvironmentalHealth: &rwp.Environment{RunMode: 1}},
		{SysStat: &rwp.SystemStat{CPUUsage: 3, ThrottledNow: true}},
		{Events: []*rwp.HWCEvent{{HWCID: 1, Binary: &rwp.BinaryEvent{Pressed: true, Edge: 2}}}},
		{Events: []*rwp.HWCEvent{{HWCID: 1, Binary: &rwp.BinaryEvent{}}, {HWCID: 2, Pulsed: &rwp.PulsedEvent{Value: -3}}}},
		{Events: []*rwp.HWCEvent{{HWCID: 5, Absolute: &rwp.AbsoluteEvent{Value: 500}}, {HWCID: 4, Speed: &rwp.SpeedEvent{Value: -500}}, {HWCID: 3, RawAnalog: &rwp.RawAnalogEvent{Value: 9}}}},
		{Registers: []*rwp.Register{{Reg: 0, Id: "A", Value: 1}}}, {Registers: []*rwp.Register{{Reg: 3, Id: "B", Value: 2}, {Reg: 1, Id: "7", Value: 1}}},
		{},
	}
}

package main

import (
	"encoding/json"
	"fmt"
	ios "os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"verif.local/harness/ex"
	"verif.local/harness/vk"
)

// op is one call (or a history of calls on one reader) with its result written out.
type op struct {
	name string
	f    func() string
}

func text(ms any) string {
	var b strings.Builder
	switch ms := ms.(type) {
	case []*rwp.InboundMessage:
		for _, m := range ms {
			w, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
			fmt.Fprintf(&b, "%x;", w)
		}
	case []*rwp.OutboundMessage:
		for _, m := range ms {
			w, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
			fmt.Fprintf(&b, "%x;", w)
		}
	case []string:
		s := append([]string{}, ms...)
		sort.Strings(s) // map entries have no order; nothing else is lost for a comparison of the same call
		fmt.Fprintf(&b, "%q", s)
	}
	return b.String()
}

func in(ls ...string) op {
	return op{fmt.Sprintf("to inbound %q", ls), func() string { return text(rawpanel.RawPanelASCIIstringsToInboundMessages(ls)) }}
}

func out(ls ...string) op {
	return op{fmt.Sprintf("to outbound %q", ls), func() string { return text(rawpanel.RawPanelASCIIstringsToOutboundMessages(ls)) }}
}

func rd(ls ...string) op {
	return op{fmt.Sprintf("reader %q", ls), func() string {
		r := &rawpanel.ASCIIreader{}
		s := ""
		for _, l := range ls {
			s += text(r.Parse(l)) + "/"
		}
		return s
	}}
}

func ein(ms ...*rwp.InboundMessage) op {
	return op{"from inbound " + short(ms[0]), func() string { return text(rawpanel.InboundMessagesToRawPanelASCIIstrings(ms)) }}
}

func eout(ms ...*rwp.OutboundMessage) op {
	return op{"from outbound " + short(ms[0]), func() string { return text(rawpanel.OutboundMessagesToRawPanelASCIIstrings(ms)) }}
}

func short(m proto.Message) string {
	s := prototext.MarshalOptions{}.Format(m)
	return s[:min(len(s), 80)]
}

// ops are calls with inputs that differ in every field, so that anything
// shared between calls shows.
func ops() []op {
	text1 := &rwp.HWCText{IntegerValue: 5, Formatting: 1, Title: "A", Textline1: "a1", Textline2: "a2", PairMode: 2, StateIcon: 1, ModifierIcon: 3, IntegerValue2: 6, Inverted: true,
		PixelColor: &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: 255, Green: 10, Blue: 128}}, BackgroundColor: &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: 4}},
		Scale:       &rwp.HWCText_ScaleM{ScaleType: 1, RangeLow: 1, RangeHigh: 2, LimitLow: 3, LimitHigh: 4},
		TextStyling: &rwp.HWCText_TextStyle{TextFont: &rwp.HWCText_TextStyle_Font{FontFace: 1, TextWidth: 2, TextHeight: 1}, TitleFont: &rwp.HWCText_TextStyle_Font{FontFace: 2, TextWidth: 1, TextHeight: 3}, FixedWidth: true, TitleBarPadding: 1, ExtraCharacterSpacing: 2}}
	text2 := &rwp.HWCText{Formatting: 7, Title: "BB", SolidHeaderBar: true, Textline1: "b"}
	img := func(n int, b byte) []byte {
		d := make([]byte, n)
		for i := range d {
			d[i] = b + byte(i)
		}
		return d
	}
	inA := &rwp.InboundMessage{FlowMessage: 1, Command: &rwp.Command{SendPanelInfo: true, PanelBrightness: &rwp.Brightness{LEDs: 1, OLEDs: 2}, SetNetworkConfig: &rwp.NetworkConfig{}, SetHeartBeatTimer: &rwp.HeartBeatTimer{Value: 3}},
		States:    []*rwp.HWCState{{HWCIDs: []uint32{1, 2}, HWCMode: &rwp.HWCMode{State: 4, Output: true}, HWCColor: &rwp.HWCColor{ColorRGB: &rwp.ColorRGB{Red: 200}}, HWCExtended: &rwp.HWCExtended{Interpretation: 1, Value: 9}, HWCText: text1, HWCGfx: &rwp.HWCGfx{W: 8, H: 40, ImageData: img(341, 1)}, PublishRawADCValues: &rwp.PublishRawADCValues{Enabled: true}}},
		Registers: []*rwp.Register{{Reg: 0, Id: "A", Value: 1}, {Reg: 1, Id: "3", Value: 1}}}
	inB := &rwp.InboundMessage{FlowMessage: 2, Command: &rwp.Command{Reboot: true, SetDimmedGain: &rwp.DimmedGain{Value: 8}, SetCalibrationProfile: &rwp.CalibrationProfile{Json: "{\n}"}, SimulateEnvironmentalHealth: &rwp.Environment{RunMode: 1}},
		States:    []*rwp.HWCState{{HWCIDs: []uint32{9}, HWCMode: &rwp.HWCMode{State: 2, BlinkPattern: 5}, HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: 7}}, HWCText: text2, HWCGfx: &rwp.HWCGfx{ImageType: 1, W: 3, H: 3, XYoffset: true, X: 1, Y: 2, ImageData: img(200, 100)}}},
		Registers: []*rwp.Register{{Reg: 2, Id: "B", Value: 2}, {Reg: 3, Id: "C", Value: 3}}}
	outA := &rwp.OutboundMessage{FlowMessage: 1, PanelInfo: &rwp.PanelInfo{Model: "MA", Serial: "SA", Name: "NA", LockedToIPs: []string{"1", "2"}, PanelType: 1, RawPanelSupport: &rwp.RawPanelSupport{ASCII: true, Binary: true, System: true}}, PanelTopology: &rwp.PanelTopology{Json: "{\n\"a\":1}", Svgbase: "<svg>\na\n</svg>"}, HWCavailability: map[uint32]uint32{1: 2},
		Events: []*rwp.HWCEvent{{HWCID: 1, Binary: &rwp.BinaryEvent{Pressed: true, Edge: 4}}, {HWCID: 2, Pulsed: &rwp.PulsedEvent{Value: -1}}}, SysStat: &rwp.SystemStat{CPUUsage: 5, CPUTemp: 1.5}, RunTimeStats: &rwp.RunTimeStats{BootsCount: 3}}
	outB := &rwp.OutboundMessage{FlowMessage: 5, PanelInfo: &rwp.PanelInfo{Model: "MB", SoftwareVersion: "v", BluePillReady: true, MaxClients: 4, RawPanelSupport: &rwp.RawPanelSupport{Processors: true, Registers: true}}, Connections: &rwp.Connections{Connection: []string{"x", "y"}}, HWCavailability: map[uint32]uint32{7: 0},
		Events: []*rwp.HWCEvent{{HWCID: 9, Absolute: &rwp.AbsoluteEvent{Value: 500}}, {HWCID: 8, Speed: &rwp.SpeedEvent{Value: -5}}, {HWCID: 7, RawAnalog: &rwp.RawAnalogEvent{Value: 3}}}, ErrorMessage: &rwp.Message{Message: "e\nf"}, EnvironmentalHealth: &rwp.Environment{RunMode: 1}, NetworkConfig: &rwp.NetworkConfig{}, Registers: []*rwp.Register{{Reg: 0, Id: "Z", Value: 9}}}
	return []op{
		in("HWC#1=4", "HWCc#1=200", "HWCx#2=4100", "HWCt#3=5|1|9|A||a1|a2|6|2|1|1|2|3|4||7|8|9|1|100|5", "HWCrawADCValues#1=1", "MemA=1", "Flag#3=1", "PanelBrightness=1,2", "SetNetworkConfig={}"),
		in("HWC#9,8=34", "HWCc#8=130", "HWCt#7=|||BB||b", "ShiftB=2", "StateC=3", "HeartBeatTimer=9", "SimulateEnvironmentalHealth=Safemode", `{"HWCIDs":[5],"HWCMode":{"State":3}}`, `[{"FlowMessage":1}]`, "junk"),
		in("HWCg#1=0/1,8x2:AQI=", "HWCg#1=1:AwQ=", "ping", "HWCgRGB#2=0:AAA=", "HWCgRGB#2=1:AQE=", "HWCgRGB#2=2:AgI="),
		in("HWCgGray#5=0/1,4x4,1,2:EBAQ", "HWCgGray#5=1:ICAg", "list", "HWCg#6=0:/w==", "HWCg#6=1:/g==", "HWCg#6=2:/Q=="),
		rd("HWCg#1=0/1,8x2:AQI=", "HWCg#1=1:AwQ=", "ping"),
		rd("HWCgGray#5=0/1,4x4,1,2:EBAQ", "HWC#3=4", "HWCgGray#5=1:ICAg"),
		out("HWC#1.4=Down", "HWC#2=Enc:-1", "map=1:2", "_model=MA", "_support=ASCII,Binary", "_serverModeLockToIP=1;2", "SysStat=CPUUsage:5:CPUTemp:1.5", "MemA=1"),
		out("HWC#9=Press", "HWC#8=Speed:-5", "map=7:0", "_serial=SB", "_panelType=BPI", "_connections=x;y", "_networkConfig={}", "EnvironmentalHealth=Blocked", "Flag#2=1", "BSY", "junk"),
		ein(inA), ein(inB), ein(inB, inA),
		eout(outA), eout(outB), eout(outA, outB),
	}
}

// want are the results of the calls alone.
var want []string

func scenario(os []op, sel []int, bound int) *ex.Scenario {
	var names []string
	for _, i := range sel {
		names = append(names, os[i].name)
	}
	return &ex.Scenario{Group: fmt.Sprintf("%d calls, bound %d", len(sel), bound), Bound: bound, Input: func() any { return names }, Body: func(x *ex.X) string {
		got := make([]string, len(sel))
		var wg sync.WaitGroup
		for k, i := range sel {
			wg.Add(1)
			go func() {
				defer wg.Done()
				got[k] = os[i].f()
				x.Log("call %d done", k)
			}()
		}
		wg.Wait()
		for k, i := range sel {
			if got[k] != want[i] {
				return fmt.Sprintf("re-entrancy: %s gives %.300s, alone %.300s", names[k], got[k], want[i])
			}
		}
		return ""
	}}
}

// cold are schedules of processes that did no call before: what the library
// sets up on its first use happens in the middle of concurrent calls. The
// results alone come from the process that started them.
// Without a table of points: the default schedule of every pair.
func cold(points map[string]int) (out []*ex.Scenario) {
	os := ops()
	if want == nil && ex.InWorker() {
		load("want", &want)
	}
	one := func(i, j int, ds []ex.Dev) {
		s := scenario(os, []int{i, j}, 0)
		s.Group, s.Fixed = "2 first calls", ds
		out = append(out, s)
	}
	for i := range os {
		for j := range os {
			if points == nil {
				one(i, j, nil)
				continue
			}
			if i != j && !c.Thorough() {
				continue
			}
			for p := 0; p < points[fmt.Sprint(i, j)]; p++ {
				one(i, j, []ex.Dev{{Pos: p, Alt: 1}})
			}
		}
	}
	return
}

// save and load pass what the parent found on to the processes.
func save(name string, v any) {
	b, _ := json.Marshal(v)
	if err := ios.WriteFile(filepath.Join(ios.Getenv("VERIF_SCRATCH"), "c06-"+name), b, 0o644); err != nil {
		panic(err)
	}
}

func load(name string, v any) {
	b, err := ios.ReadFile(filepath.Join(ios.Getenv("VERIF_SCRATCH"), "c06-"+name))
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		panic(err)
	}
}

// coldStart explores them: the default schedules of all pairs, which tell how
// many choices each has, the same with the race detector, and all schedules
// with one deviation.
func coldStart() {
	points := map[string]int{}
	if !ex.InWorker() {
		var alone []string
		for _, o := range ops() {
			alone = append(alone, o.f())
		}
		save("want", alone)
	}
	n := len(ops())
	var mu sync.Mutex
	ex.Explore(c, "first calls of a process", func() []*ex.Scenario { return cold(nil) }, ex.Options{Fresh: true, Done: func(k, p int) {
		mu.Lock()
		points[fmt.Sprint(k/n, k%n)] = p
		mu.Unlock()
	}})
	ex.Explore(c, "first calls of a process with the race detector", func() []*ex.Scenario { return cold(nil) }, ex.Options{Fresh: true, Race: true})
	if !ex.InWorker() {
		save("points", points)
	}
	ex.Explore(c, "first calls of a process, all schedules", func() []*ex.Scenario {
		if ex.InWorker() {
			load("points", &points)
		}
		return cold(points)
	}, ex.Options{Fresh: true})
}

func concurrent(race bool) (out []*ex.Scenario) {
	os := ops()
	if want == nil && ex.InWorker() {
		for _, o := range os {
			want = append(want, o.f())
		}
	}
	for i := range os {
		for j := i; j < len(os); j++ {
			b := 1
			if !race && c.Thorough() {
				b = 2
			}
			out = append(out, scenario(os, []int{i, j}, b))
		}
	}
	if c.Thorough() || !race {
		for i := range os {
			for j := i; j < len(os); j++ {
				for k := j; k < len(os); k++ {
					if c.Thorough() || (i+j+k)%5 == 0 {
						out = append(out, scenario(os, []int{i, j, k}, 1))
					}
				}
			}
		}
	}
	_ = vk.Pick[int]
	return
}

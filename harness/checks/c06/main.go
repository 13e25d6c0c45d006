// C06: the converters and the streaming reader are total and re-entrant. Bounded
// exhaustive enumeration of byte strings, almost-grammatical lines, JSON of
// every shape, wire bytes and presence patterns; then pairs of calls under all
// schedules with a bounded number of deviations, and with the race detector.
package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif.local/harness/ex"
	"verif.local/harness/gen"
	"verif.local/harness/vk"
)

var c *vk.Check

func main() {
	vk.Main("C06", func(k *vk.Check) {
		c = k
		c.Assume("A call hangs when it does not return within 20 s (inputs are at most a few megabytes).",
			"No element of the list a call returns may be nil; null elements nested inside a JSON document are not judged.",
			"Messages come from wire bytes: no nil elements in lists. What proto.Unmarshal leaves behind when it fails counts as obtainable, for the library uses it.",
			"Concurrent calls: converters share their input messages or not, every goroutine has its own streaming reader; a call's result is that of the same call alone (map-valued lines in any order).",
			"The race detector sees the executions of the explored schedules.")
		if !ex.InWorker() {
			c.Limit(20 * time.Second)
			sequential()
			c.AddExtra("longest call in ms", c.Longest().Milliseconds())
		}
		o := ex.Options{}
		ex.Explore(c, "concurrent calls", func() []*ex.Scenario { return concurrent(false) }, o)
		o.Race = true
		ex.Explore(c, "concurrent calls with the race detector", func() []*ex.Scenario { return concurrent(true) }, o)
		coldStart()
	})
}

// --- sequential ---------------------------------------------------------------

// lines gives the lines to everything that takes lines.
func lines(in []string) string {
	for _, f := range []struct {
		name string
		f    func() (int, int)
	}{
		{"RawPanelASCIIstringsToInboundMessages", func() (int, int) { return nils(rawpanel.RawPanelASCIIstringsToInboundMessages(in)) }},
		{"RawPanelASCIIstringsToOutboundMessages", func() (int, int) { return nils(rawpanel.RawPanelASCIIstringsToOutboundMessages(in)) }},
		{"ASCIIreader.Parse", func() (int, int) {
			r := &rawpanel.ASCIIreader{}
			n, bad := 0, 0
			for _, l := range in {
				k, b := nils(r.Parse(l))
				n, bad = n+k, bad+b
			}
			return n, bad
		}},
	} {
		if _, bad := f.f(); bad > 0 {
			return fmt.Sprintf("nil: %s returned %d nil messages", f.name, bad)
		}
	}
	return ""
}

func nils[M any](ms []*M) (n, bad int) {
	for _, m := range ms {
		if m == nil {
			bad++
		}
	}
	return len(ms), bad
}

func desc(in []string) func() any {
	return func() any {
		var out []string
		for i, l := range in {
			if i == 8 {
				out = append(out, fmt.Sprintf("... %d lines", len(in)))
				break
			}
			if len(l) > 200 {
				l = l[:200] + fmt.Sprintf("... (%d bytes)", len(l))
			}
			out = append(out, fmt.Sprintf("%q", l))
		}
		return map[string]any{"lines": out}
	}
}

func runLines(in ...string) {
	c.Trace(3)
	c.Run(desc(in), func() string { return lines(in) })
}

func encode(m proto.Message) string {
	var out []string
	switch m := m.(type) {
	case *rwp.InboundMessage:
		out = rawpanel.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{m})
	case *rwp.OutboundMessage:
		out = rawpanel.OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{m})
	}
	_ = out
	return ""
}

func runMsg(m proto.Message) {
	c.Trace(1)
	c.Run(func() any { return map[string]any{"message": describe(m)} }, func() string { return encode(m) })
}

func describe(m proto.Message) string {
	b, err := proto.Marshal(m)
	if err != nil {
		return fmt.Sprintf("%T %v", m, m)
	}
	if len(b) > 300 {
		return fmt.Sprintf("%T wire %x... (%d bytes)", m, b[:300], len(b))
	}
	return fmt.Sprintf("%T wire %x", m, b)
}

func runWire(b []byte) {
	for k := 0; k < 2; k++ {
		c.Trace(1)
		c.Run(func() any {
			return map[string]any{"type": []string{"InboundMessage", "OutboundMessage"}[k], "wire": fmt.Sprintf("%x", b)}
		}, func() string {
			var m proto.Message = &rwp.InboundMessage{}
			if k == 1 {
				m = &rwp.OutboundMessage{}
			}
			if proto.Unmarshal(b, m) != nil {
				// The library does not look at the error.
				if proto.Size(m) == 0 {
					return ""
				}
			}
			return encode(m)
		})
	}
}

var keywords = []string{"", "{", "[", "HWC#", "HWC#1=", "HWC#1,", "HWCx#1=", "HWCc#1=", "HWCt#", "HWCt#1=", "HWCt#1=1|", "HWCt#1=|||t|1|a|b|", "HWCt#1=||||||||", "HWCt#1=10|10|", "HWCrawADCValues#1=",
	"HWCg#", "HWCg#1=", "HWCg#1=0", "HWCg#1=0/", "HWCg#1=0/2,", "HWCg#1=0/2,8x", "HWCg#1=0/2,8x8", "HWCg#1=0/2,8x8,", "HWCg#1=0/2,8x8,1,1", "HWCg#1=0/0,8x8:", "HWCg#1=0:", "HWCg#1=1:", "HWCgRGB#1=0/0,2x2:", "HWCgGray#1=0/0,2x2:",
	"PanelBrightness=", "PanelBrightness=1,", "HeartBeatTimer=", "DimmedGain=", "PublishSystemStat=", "LoadCPU=", "SleepTimer=", "SleepMode=", "SleepScreenSaver=", "Webserver=", "JSONonOutbound=", "SetCalibrationProfile=", "SimulateEnvironmentalHealth=", "SetNetworkConfig=", "SetNetworkConfig={",
	"Flag#", "Flag#1=", "Mem", "MemA=", "Shift", "ShiftA=", "State", "StateA=",
	"HWC#1.", "HWC#1.1=", "HWC#1=Down", "HWC#1=Press", "HWC#1.16=Press:", "HWC#1=Abs:", "HWC#1=Speed:", "HWC#1=Enc:", "HWC#1=Raw:", "map=", "map=1:",
	"_model=", "_serial=", "_version=", "_platform=", "_bluePillReady=", "_name=", "_panelType=", "_support=", "_isSleeping=", "_sleepTimer=", "_panelTopology_svgbase=", "_panelTopology_HWC=", "_burninProfile=", "_networkConfig=", "_networkConfig={", "_calibrationProfile=", "_defaultCalibrationProfile=", "_serverModeLockToIP=", "_serverModeMaxClients=", "_heartBeatTimer=", "_connections=", "_bootsCount=", "_totalUptimeMin=", "_sessionUptimeMin=", "_screenSaverOnMin=", "ErrorMsg=", "Msg=", "EnvironmentalHealth=", "SysStat=", "SysStat=CPUUsage:", "SysStat=CPUTemp:", "SysStat=CPUTemp:1:MemFree:",
	"ping", "ack", "list", "map", "RDY", "BSY", "Clear", "PanelTopology?"}

var tokens = []string{"", "0", "1", "9", "-1", "07", "1e9", "0x1", "4294967296", "2147483648", "9223372036854775807", "9223372036854775808", "99999999999999999999999999", ",", "|", ":", "/", "x", ".", "=", "#", ";", "{", "}", "[", "]", "null", "\"", "\\u0000", " ", "\t", "\r", "\n", "\x00", "\xff\xfe", "é€", "A", "==", "%s%d", "Down", "CPUTemp", "NaN", "-Inf"}

func words(n int) (out []string) {
	out = []string{""}
	if n == 0 {
		return
	}
	for _, w := range words(n - 1) {
		for _, t := range tokens {
			out = append(out, w+t)
		}
	}
	seen := map[string]bool{}
	k := 0
	for _, w := range out {
		if !seen[w] {
			seen[w] = true
			out[k] = w
			k++
		}
	}
	return out[:k]
}

func sequential() {
	c.Phase("byte strings", func() {
		c.Parallel(1+256+65536, func(i int) {
			switch {
			case i == 0:
				runLines("")
				runLines()
			case i < 257:
				runLines(string([]byte{byte(i - 1)}))
			default:
				runLines(string([]byte{byte((i - 257) >> 8), byte(i - 257)}))
			}
		})
		if c.Thorough() {
			c.Parallel(1<<24, func(i int) { runLines(string([]byte{byte(i >> 16), byte(i >> 8), byte(i)})) })
		}
		al := []byte("\x00\n\r\t \"#%,./0139:;=?ACHMSWX[\\]_{|}acklmnptux-\x7f\x80\xc3\xff")
		n := len(al)
		d := vk.Pick(c, 3, 4)
		tot := 1
		for k := 0; k < d; k++ {
			tot *= n
		}
		c.Parallel(tot, func(i int) {
			b := make([]byte, d)
			for k := range b {
				b[k] = al[i%n]
				i /= n
			}
			runLines(string(b))
		})
	})
	c.Phase("keywords followed by tokens", func() {
		ws := words(vk.Pick(c, 2, 3))
		c.Parallel(len(ws), func(i int) {
			for _, k := range keywords {
				runLines(k + ws[i])
			}
		})
		// three tokens in the places where a grammar continues
		short := words(1)
		c.Parallel(len(keywords), func(i int) {
			for _, a := range short {
				for _, m := range []string{"=", ":", ",", "|", "\":", "/"} {
					for _, b := range short {
						runLines(keywords[i] + a + m + b)
						runLines(keywords[i]+a, keywords[i]+b)
					}
				}
			}
		})
	})
	c.Phase("text fields", func() {
		vals := []string{"", "0", "1", "-1", "2", "7", "10", "11", "255", "4096", "-32769", "2147483648", "-2147483649", "9223372036854775808", "99999999999999999999", "x", " ", "1.5", "\x00", "\xff", "é", "{", "\r"}
		for _, n := range []int{0, 1, 5, 20, 21, 22, 40, 400} {
			c.Parallel((n+1)*(n+1), func(i int) {
				a, b := i/(n+1), i%(n+1)
				if b < a || n > 22 && (a%7 != 0 || b%5 != 0) {
					return
				}
				for _, v := range vals {
					for _, w := range vals {
						f := make([]string, n+1)
						f[a], f[b] = v, w
						runLines("HWCt#7=" + strings.Join(f, "|"))
						if a == b {
							break
						}
					}
				}
			})
		}
	})
	c.Phase("JSON of every shape", jsonShapes)
	c.Phase("messages with missing and extreme parts", messages)
	c.Phase("changed lines", changedLines)
	c.Phase("line sequences", sequences)
	c.Phase("wire bytes", wireBytes)
	c.Phase("large inputs", large)
	c.Phase("with the debug flag", debugging)
}

// --- JSON -----------------------------------------------------------------------

var jvals = []string{"null", "true", "false", "0", "1", "-1", "1.5", "1e99", "1e400", "18446744073709551616", "-9223372036854775809", `""`, `"a"`, `"1"`, `"\ud800"`, `"\u0000"`, "\"\xff\"", "[]", "[null]", "[0]", "[[]]", "[{}]", "[1,\"a\"]", "{}", `{"":null}`, "[{},null]", "nul", `{"a":{"a":{"a":{}}}}`}

// jpaths lists the JSON field paths of a Go struct type.
func jpaths(t reflect.Type, prefix []string, depth int, out *[][]string) {
	for t.Kind() == reflect.Pointer || t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct || depth == 0 {
		return
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() {
			continue
		}
		name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
		if name == "" {
			name = f.Name
		}
		ft := f.Type
		if ft.Kind() == reflect.Slice && ft.Elem().Kind() == reflect.Pointer {
			name = "*" + name
		}
		p := append(append([]string{}, prefix...), name)
		*out = append(*out, p)
		jpaths(ft, p, depth-1, out)
	}
}

func wrap(p []string, v string) string {
	s := v
	for i := len(p) - 1; i >= 0; i-- {
		n, list := strings.CutPrefix(p[i], "*")
		if list && i < len(p)-1 {
			s = "[" + s + "]"
		}
		s = `{"` + n + `":` + s + `}`
	}
	return s
}

func jsonShapes() {
	type kind struct {
		t     reflect.Type
		wraps []string
	}
	kinds := []kind{
		{reflect.TypeOf(rwp.HWCState{}), []string{"%", "[%]", `[{"States":[%]}]`, `[{"States":[null,%]},null]`}},
		{reflect.TypeOf(rwp.InboundMessage{}), []string{"[%]", "[null,%]", "[%,null,%]", "[[%]]", "%", "[%", "[%,"}},
		{reflect.TypeOf(rwp.OutboundMessage{}), []string{"%", "[%]"}},
		{reflect.TypeOf(rwp.NetworkConfig{}), []string{"SetNetworkConfig=%", "_networkConfig=%", "SetNetworkConfig=[%]", `[{"Command":{"SetNetworkConfig":%}}]`}},
	}
	for _, k := range kinds {
		var ps [][]string
		jpaths(k.t, nil, vk.Pick(c, 5, 8), &ps)
		c.AddExtra("json paths", int64(len(ps)))
		c.Parallel(len(ps), func(i int) {
			for _, v := range jvals {
				o := wrap(ps[i], v)
				for _, w := range k.wraps {
					runLines(strings.ReplaceAll(w, "%", o))
				}
			}
		})
		// two members of the top level
		var top []string
		for _, p := range ps {
			if len(p) == 1 {
				top = append(top, strings.TrimPrefix(p[0], "*"))
			}
		}
		c.Parallel(len(top)*len(top), func(i int) {
			for _, v := range jvals {
				for _, u := range []string{"null", "{}", "[{}]", "[null]", "1", `"a"`} {
					o := fmt.Sprintf(`{"%s":%s,"%s":%s}`, top[i/len(top)], v, top[i%len(top)], u)
					for _, w := range k.wraps {
						runLines(strings.ReplaceAll(w, "%", o))
					}
				}
			}
		})
	}
	// all short JSON texts over a token alphabet
	toks := []string{"{", "}", "[", "]", ",", ":", "null", "0", "\"\"", "\"States\"", "\"HWCIDs\"", "true", " "}
	d := vk.Pick(c, 5, 6)
	n := 1
	for i := 0; i < d; i++ {
		n *= len(toks)
	}
	c.Parallel(n, func(i int) {
		var b strings.Builder
		for k := 0; k < d; k++ {
			b.WriteString(toks[i%len(toks)])
			i /= len(toks)
		}
		s := b.String()
		if s[0] == '{' || s[0] == '[' {
			runLines(s)
		} else if i%7 == 0 {
			runLines("[" + s)
		}
	})
	// numbers of elements
	for _, n := range []int{1, 2, 3, 100} {
		for m := 0; m < 1<<min(n, 3); m++ {
			var el []string
			for i := 0; i < n; i++ {
				el = append(el, []string{"null", "{}"}[m>>(i%3)&1])
			}
			runLines("[" + strings.Join(el, ",") + "]")
			runLines("ping", "["+strings.Join(el, ",")+"]", "ack")
		}
	}
}

// --- messages by reflection -------------------------------------------------------

// dev is one deviation: sets something somewhere in a message.
type dev struct {
	name string
	set  func(m protoreflect.Message)
}

func scalars(fd protoreflect.FieldDescriptor) (out []protoreflect.Value) {
	add := func(vs ...any) {
		for _, v := range vs {
			out = append(out, protoreflect.ValueOf(v))
		}
	}
	switch fd.Kind() {
	case protoreflect.BoolKind:
		add(true)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		add(int32(1), int32(-1), int32(1<<31-1), int32(-1<<31))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		add(uint32(1), uint32(255), uint32(1<<31), uint32(1<<32-1))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		add(int64(1), int64(-1<<63))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		add(uint64(1), uint64(1<<64-1))
	case protoreflect.FloatKind:
		add(float32(1.5), float32(-1e38), float32(nan()), float32(1/zero()))
	case protoreflect.DoubleKind:
		add(float64(1.5), nan(), 1/zero())
	case protoreflect.StringKind:
		add("a", "\n", "\x00|;:=,", "é\u2028", strings.Repeat("W", 300))
	case protoreflect.BytesKind:
		add([]byte{0}, []byte{255, 1}, make([]byte, 170), make([]byte, 171), make([]byte, 1000))
	case protoreflect.EnumKind:
		n := fd.Enum().Values().Len()
		for _, v := range []int32{1, int32(n - 1), int32(n), 7, 10, 11, 16, 31, 32, 127, -1, 1<<31 - 1, -1 << 31} {
			add(protoreflect.EnumNumber(v))
		}
	}
	return
}

func zero() float64 { return float64(len(os.Args) - len(os.Args)) }
func nan() float64  { return zero() / zero() }

// deviations lists the single deviations of a message type below a path.
func deviations(md protoreflect.MessageDescriptor, at string, get func(protoreflect.Message) protoreflect.Message, depth int) (out []dev) {
	fs := md.Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		n := at + "." + string(fd.Name())
		out = append(out, dev{n + " absent", func(m protoreflect.Message) { get(m).Clear(fd) }})
		switch {
		case fd.IsMap():
			out = append(out, dev{n + " zero entry", func(m protoreflect.Message) {
				get(m).Mutable(fd).Map().Set(protoreflect.ValueOf(uint32(0)).MapKey(), protoreflect.ValueOf(uint32(0)))
			}}, dev{n + " entries", func(m protoreflect.Message) {
				mp := get(m).Mutable(fd).Map()
				for k := uint32(0); k < 3; k++ {
					mp.Set(protoreflect.ValueOf(^k).MapKey(), protoreflect.ValueOf(^k))
				}
			}})
		case fd.IsList() && fd.Message() != nil:
			out = append(out, dev{n + " empty element", func(m protoreflect.Message) { get(m).Mutable(fd).List().AppendMutable() }})
			if depth > 0 {
				out = append(out, deviations(fd.Message(), n+"[0]", func(m protoreflect.Message) protoreflect.Message {
					l := get(m).Mutable(fd).List()
					if l.Len() == 0 {
						l.AppendMutable()
					}
					return l.Get(0).Message()
				}, depth-1)...)
			}
		case fd.IsList():
			for k, v := range append([]protoreflect.Value{fd.Default()}, scalars(fd)...) {
				if !v.IsValid() {
					continue
				}
				out = append(out, dev{fmt.Sprintf("%s element %d", n, k), func(m protoreflect.Message) { get(m).Mutable(fd).List().Append(v) }})
			}
		case fd.Message() != nil:
			out = append(out, dev{n + " empty", func(m protoreflect.Message) {
				get(m).Set(fd, get(m).NewField(fd))
			}})
			if depth > 0 {
				out = append(out, deviations(fd.Message(), n, func(m protoreflect.Message) protoreflect.Message { return get(m).Mutable(fd).Message() }, depth-1)...)
			}
		default:
			for k, v := range scalars(fd) {
				out = append(out, dev{fmt.Sprintf("%s value %d", n, k), func(m protoreflect.Message) { get(m).Set(fd, v) }})
			}
		}
	}
	return
}

// fill populates everything.
func fill(m protoreflect.Message, depth int, k int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		switch {
		case fd.IsMap():
			m.Mutable(fd).Map().Set(protoreflect.ValueOf(uint32(1)).MapKey(), protoreflect.ValueOf(uint32(2)))
		case fd.IsList() && fd.Message() != nil:
			if depth > 0 {
				fill(m.Mutable(fd).List().AppendMutable().Message(), depth-1, k)
			}
		case fd.IsList():
			vs := scalars(fd)
			m.Mutable(fd).List().Append(vs[k%len(vs)])
		case fd.Message() != nil:
			if depth > 0 {
				fill(m.Mutable(fd).Message(), depth-1, k)
			}
		default:
			vs := scalars(fd)
			m.Set(fd, vs[k%len(vs)])
		}
	}
}

type base struct {
	name string
	mk   func() proto.Message
}

func bases() (out []base) {
	out = append(out,
		base{"empty inbound", func() proto.Message { return &rwp.InboundMessage{} }},
		base{"inbound with a state", func() proto.Message {
			return &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{7, 0}}}}
		}},
		base{"empty outbound", func() proto.Message { return &rwp.OutboundMessage{} }},
		base{"outbound with an event", func() proto.Message {
			return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 1}}}
		}})
	for _, k := range []int{0, 1, 3} {
		out = append(out, base{fmt.Sprintf("full inbound %d", k), func() proto.Message {
			m := &rwp.InboundMessage{}
			fill(m.ProtoReflect(), 8, k)
			m.States[0].HWCIDs = []uint32{7}
			return m
		}}, base{fmt.Sprintf("full outbound %d", k), func() proto.Message {
			m := &rwp.OutboundMessage{}
			fill(m.ProtoReflect(), 8, k)
			return m
		}})
	}
	return
}

func devsOf(m proto.Message, depth int) []dev {
	return deviations(m.ProtoReflect().Descriptor(), "", func(m protoreflect.Message) protoreflect.Message { return m }, depth)
}

func messages() {
	c.Run("empty lists", func() string {
		rawpanel.InboundMessagesToRawPanelASCIIstrings(nil)
		rawpanel.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{})
		rawpanel.OutboundMessagesToRawPanelASCIIstrings(nil)
		rawpanel.RawPanelASCIIstringsToInboundMessages(nil)
		rawpanel.RawPanelASCIIstringsToOutboundMessages(nil)
		return ""
	})
	for _, b := range bases() {
		ds := devsOf(b.mk(), 7)
		c.AddExtra("single deviations", int64(len(ds)))
		w := map[string]bool{}
		var mu sync.Mutex
		apply := func(sel ...int) (m proto.Message) {
			m = b.mk()
			for _, i := range sel {
				ds[i].set(m.ProtoReflect())
			}
			return m
		}
		c.Parallel(len(ds), func(i int) {
			m := apply(i)
			c.Trans(1)
			runMsg(m)
			if bt, err := proto.Marshal(m); err == nil && len(bt) < 4000 {
				mu.Lock()
				w[string(bt)] = true
				mu.Unlock()
				// the same after the wire
				runWire(bt)
			}
		})
		for k := range w {
			c.StateBytes([]byte(k))
		}
		// pairs; Processors only in the thorough tier
		var pick []int
		for i, d := range ds {
			if c.Thorough() || !strings.Contains(d.name, "Processors.") || strings.HasSuffix(d.name, " empty") || strings.HasSuffix(d.name, " absent") {
				pick = append(pick, i)
			}
		}
		full := strings.HasPrefix(b.name, "full")
		if full && !c.Thorough() {
			// absences only
			k := 0
			for _, i := range pick {
				if strings.HasSuffix(ds[i].name, " absent") || strings.HasSuffix(ds[i].name, " empty") {
					pick[k] = i
					k++
				}
			}
			pick = pick[:k]
		}
		c.Parallel(len(pick), func(i int) {
			for j := range pick {
				if i != j {
					runMsg(apply(pick[i], pick[j]))
				}
			}
		})
		// three deviations inside the text
		if b.name == "inbound with a state" || b.name == "full inbound 0" {
			var tx []int
			for i, d := range ds {
				if strings.Contains(d.name, "HWCText") && (c.Thorough() || strings.HasSuffix(d.name, " empty") || strings.HasSuffix(d.name, " absent") || strings.Contains(d.name, "Formatting")) {
					tx = append(tx, i)
				}
			}
			if c.Thorough() && len(tx) > 120 {
				k := 0
				for n, i := range tx {
					if n%((len(tx)+119)/120) == 0 || strings.HasSuffix(ds[i].name, " empty") || strings.HasSuffix(ds[i].name, " absent") || strings.Contains(ds[i].name, "Formatting") {
						tx[k] = i
						k++
					}
				}
				tx = tx[:k]
			}
			c.Parallel(len(tx)*len(tx), func(i int) {
				for k := range tx {
					runMsg(apply(tx[i/len(tx)], tx[i%len(tx)], tx[k]))
				}
			})
		}
	}
}

// canonical are the lines the encoders make of the single deviations.
var canonical = sync.OnceValue(func() []string {
	seen := map[string]bool{}
	for _, b := range bases() {
		for _, d := range devsOf(b.mk(), 7) {
			m := b.mk()
			d.set(m.ProtoReflect())
			vk.Safe(func() string {
				switch m := m.(type) {
				case *rwp.InboundMessage:
					for _, l := range rawpanel.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{m}) {
						seen[l] = true
					}
				case *rwp.OutboundMessage:
					for _, l := range rawpanel.OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{m}) {
						seen[l] = true
					}
				}
				return ""
			})
		}
	}
	var out []string
	for l := range seen {
		if len(l) <= 200 {
			out = append(out, l)
		}
	}
	for _, l := range keywords {
		if !seen[l] {
			out = append(out, l+"1")
		}
	}
	sort.Strings(out)
	return out
})

func changedLines() {
	ls := canonical()
	c.AddExtra("canonical lines", int64(len(ls)))
	repl := []byte("\x00\n\r \"#,./019:;=Ax[{|}\\\x80\xff")
	if c.Thorough() {
		repl = nil
		for i := 0; i < 256; i++ {
			repl = append(repl, byte(i))
		}
	}
	c.Parallel(len(ls), func(i int) {
		l := ls[i]
		runLines(l)
		for p := 0; p <= len(l); p++ {
			runLines(l[:p])
			runLines(l[p:])
			if p < len(l) {
				runLines(l[:p] + l[p+1:])
				for q := p + 2; q <= min(len(l), p+6); q++ {
					runLines(l[:p] + l[q:])
				}
				runLines(l[:p] + l[p:p+1] + l[p:])
			}
			for _, b := range repl {
				if p < len(l) {
					runLines(l[:p] + string([]byte{b}) + l[p+1:])
				}
				runLines(l[:p] + string([]byte{b}) + l[p:])
			}
			for _, t := range tokens {
				runLines(l[:p] + t + l[p:])
			}
		}
		// two lines
		for j := 0; j < len(ls); j += vk.Pick(c, 7, 1) {
			runLines(l, ls[j])
			if (i+j)%11 == 0 {
				runLines(l + ls[j])
			}
		}
	})
}

func sequences() {
	al := []string{"HWCg#1=0/2,64x32:AA==", "HWCg#1=1:AA==", "HWCg#1=2:!!!", "HWCg#1=0/0,0x0:", "HWCg#1=0:AA==", "HWCgRGB#1=0/99999999999999999999,1x1:AA==", "HWCgRGB#1=1:AA==", "HWCg#,=0:AA==", "HWCg#,=1:A", "HWCg#1=99999999999999999999:AA==", "HWCg#1=0/99999999999999999999,99999999999999999999x1,0,99999999999999999999:AA==", "HWCg#1,2=0/1,8x8:AA==", "HWCg#1,2=1:AA==", "HWCg#1=9223372036854775807:", "HWCgGray#1=00/01,1x1:", "HWCgGray#1=01:AA==", "", " ", "ping", "{", "[null]", "[{}]", "HWC#1=1", "HWC#1=Down", "x"}
	d := vk.Pick(c, 3, 4)
	n := 1
	for i := 0; i < d; i++ {
		n *= len(al)
	}
	c.Parallel(n, func(i int) {
		in := make([]string, d)
		for k := range in {
			in[k] = al[i%len(al)]
			i /= len(al)
		}
		runLines(in...)
	})
	g := al[:9]
	d = vk.Pick(c, 5, 7)
	n = 1
	for i := 0; i < d; i++ {
		n *= len(g)
	}
	c.Parallel(n, func(i int) {
		in := make([]string, d)
		for k := range in {
			in[k] = g[i%len(g)]
			i /= len(g)
		}
		runLines(in...)
	})
	// long histories on one reader
	c.Parallel(len(al)*len(al), func(i int) {
		var in []string
		for k := 0; k < 2000; k++ {
			in = append(in, al[i/len(al)], al[i%len(al)])
		}
		runLines(in...)
	})
}

func wireBytes() {
	c.Parallel(1+256+65536, func(i int) {
		switch {
		case i == 0:
			runWire(nil)
		case i < 257:
			runWire([]byte{byte(i - 1)})
		default:
			runWire([]byte{byte((i - 257) >> 8), byte(i - 257)})
		}
	})
	// three and four bytes
	c.Parallel(1<<16, func(i int) {
		for k := 0; k < 256; k++ {
			if c.Thorough() || k < 0x24 || k >= 0x7e && k < 0x84 || k >= 0xfc { // small values and lengths, the first tags, and the edges of a varint
				runWire([]byte{byte(i >> 8), byte(i), byte(k)})
			}
		}
	})
	if c.Thorough() {
		var al []byte
		for f := 1; f < 32; f++ {
			for _, w := range []int{0, 2} {
				if t := f<<3 | w; t < 256 {
					al = append(al, byte(t))
				}
			}
		}
		al = append(al, 0, 1, 3, 4, 0x7f, 0x80, 0xff)
		n := len(al)
		c.Parallel(n*n*n, func(i int) {
			for _, x := range al {
				runWire([]byte{al[i/n/n], al[i/n%n], al[i%n], x})
			}
		})
	}
	// changed wire forms
	var ws [][]byte
	for _, b := range bases() {
		ds := devsOf(b.mk(), 7)
		for i, d := range ds {
			if strings.HasPrefix(b.name, "full") && i > 0 {
				break
			}
			m := b.mk()
			d.set(m.ProtoReflect())
			if bt, err := proto.Marshal(m); err == nil && len(bt) < vk.Pick(c, 60, 400) {
				ws = append(ws, bt)
			}
		}
	}
	for _, mk := range gen.InAlphabet() {
		bt, _ := proto.Marshal(mk())
		ws = append(ws, bt)
	}
	c.AddExtra("wire forms", int64(len(ws)))
	c.Parallel(len(ws), func(i int) {
		w := ws[i]
		for p := 0; p <= len(w); p++ {
			runWire(append([]byte{}, w[:p]...))
			runWire(append([]byte{}, w[p:]...))
			if p == len(w) {
				break
			}
			for v := 0; v < 256; v++ {
				b := append([]byte{}, w...)
				b[p] = byte(v)
				runWire(b)
			}
			for _, v := range []byte{0, 1, 2, 8, 0x0a, 0x12, 0x1a, 0x80, 0xff} {
				runWire(append(append(append([]byte{}, w[:p]...), v), w[p:]...))
			}
			runWire(append(append([]byte{}, w[:p]...), w[p+1:]...))
		}
		for j := 0; j < len(ws); j += vk.Pick(c, 9, 1) {
			// concatenation merges
			runWire(append(append([]byte{}, w...), ws[j]...))
		}
	})
}

func large() {
	sizes := []int{1000, 100_000, vk.Pick(c, 1_000_000, 2_000_000)}
	var ins []string
	for _, n := range sizes {
		for _, k := range keywords {
			for _, t := range []string{"0", "9", ",", "|", ":", "1,", "[", "{", "\"", "{\"a\":", "[[", "\x00", "\xff", "A", "=", "%", "null,", "{},", "CPUTemp:"} {
				if n > 100_000 && len(k)%3 != 0 && !c.Thorough() {
					continue
				}
				ins = append(ins, k+strings.Repeat(t, n/len(t)))
			}
		}
		ins = append(ins, "["+strings.Repeat("null,", n/5)+"null]", "["+strings.Repeat("{},", n/3)+"{}]", strings.Repeat(`[{"States":[`, n/10), `{"HWCIDs":[`+strings.Repeat("1,", n/2)+"1]}", "HWCg#1=0/0,64x32:"+strings.Repeat("AAAA", n/4), "_support="+strings.Repeat("ASCII,", n/6))
		ins = append(ins, `{"HWCText":`+strings.Repeat(`{"TextStyling":`, n/12)+strings.Repeat("}", n/12))
	}
	c.Parallel(len(ins), func(i int) { runLines(ins[i]) })
	for _, n := range sizes {
		many := make([]string, n/10)
		for _, l := range []string{"", "ping", "HWCg#1=0/999999,8x8:AAAA", "HWCg#1=0:AAAA", "[null]", "HWC#1=1", "x", "HWCt#1=1|2|3"} {
			for i := range many {
				many[i] = l
			}
			runLines(many...)
		}
	}
	var ms []proto.Message
	for _, n := range []int{1000, 50_000} {
		in := &rwp.InboundMessage{States: []*rwp.HWCState{{HWCGfx: &rwp.HWCGfx{W: 1<<32 - 1, H: 1<<32 - 1, ImageData: make([]byte, n*20)}, HWCText: &rwp.HWCText{Title: strings.Repeat("\n", n)}}}}
		in.States[0].HWCIDs = []uint32{1, 2}
		ms = append(ms, in)
		ids := &rwp.InboundMessage{States: []*rwp.HWCState{{HWCMode: &rwp.HWCMode{}, HWCText: &rwp.HWCText{Title: "x"}}}}
		st := &rwp.InboundMessage{}
		rg := &rwp.InboundMessage{}
		ou := &rwp.OutboundMessage{HWCavailability: map[uint32]uint32{}, Connections: &rwp.Connections{}, PanelTopology: &rwp.PanelTopology{Json: strings.Repeat("\n", n), Svgbase: strings.Repeat("a\n", n)}}
		for i := 0; i < n; i++ {
			ids.States[0].HWCIDs = append(ids.States[0].HWCIDs, uint32(i))
			st.States = append(st.States, &rwp.HWCState{})
			rg.Registers = append(rg.Registers, &rwp.Register{Reg: rwp.Register_RegisterE(i % 6)})
			ou.HWCavailability[uint32(i)] = uint32(i)
			ou.Events = append(ou.Events, &rwp.HWCEvent{Binary: &rwp.BinaryEvent{}})
			ou.Connections.Connection = append(ou.Connections.Connection, ";")
		}
		ms = append(ms, ids, st, rg, ou)
	}
	// deep unknown groups and nested unknown fields
	for _, n := range []int{100, 9000, 20000} {
		ms = append(ms, func() proto.Message {
			m := &rwp.InboundMessage{}
			proto.Unmarshal(bytes.Repeat(protowire.AppendTag(nil, 100, protowire.StartGroupType), n), m)
			return m
		}())
	}
	c.Parallel(len(ms), func(i int) { runMsg(ms[i]) })
}

// debugging repeats a part with the package's debug flag on.
func debugging() {
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return
	}
	os.Stdout = null
	rawpanel.DebugRWPhelpers = true
	defer func() { rawpanel.DebugRWPhelpers, os.Stdout = false, old; null.Close() }()
	ls := append(append([]string{}, canonical()...), keywords...)
	ls = append(ls, "[null]", "[{}]", "{", "[", "{}", "[]", "{{}}", `{"a":{}}`, strings.Repeat("[", 1000), strings.Repeat("{", 1000))
	for _, l := range ls {
		runLines(l)
	}
	for _, b := range bases() {
		for _, d := range devsOf(b.mk(), 7) {
			m := b.mk()
			d.set(m.ProtoReflect())
			runMsg(m)
		}
	}
}

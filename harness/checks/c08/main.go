// C08: receive framing. A scripted panel sends known messages over a simulated
// connection; the byte stream is cut at every single and double point, into
// every composition (short streams), byte by byte, with pauses inside frames,
// between frames and in lines; the delivered messages must be the sent ones.
package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"

	"verif.local/harness/cl"
	"verif.local/harness/ex"
	"verif.local/harness/sim"
	"verif.local/harness/vk"
)

var c *vk.Check

func main() {
	vk.Main("C08", func(k *vk.Check) {
		c = k
		c.Assume("A frame's own bytes arrive within less than 2 s, counted from its first byte; pauses between frames and inside ASCII lines are arbitrary.",
			"Bytes that arrive while the protocol is being negotiated belong to the negotiation (C12): the stream starts after it.",
			"Lists of zero messages (blank lines) carry nothing.",
			"Exploration: every statement of connecttopanel.go and AutoDetect, every select and every socket operation is a choice point; the network is simulated, at most one segment per read.")
		o := ex.Options{Setup: cl.Warm, Mask: []string{"converterFunctions.go"}}
		ex.Explore(c, "segmentations", segmentations, o)
		ex.Explore(c, "interleavings", interleavings, o)
	})
}

type seg struct {
	at time.Duration
	n  int
}

type scen struct {
	Binary bool
	Reply  string // how the panel answers the probe
	Stream []byte
	Ends   []int // end offset of every message
	Want   []*rwp.OutboundMessage
	Names  []string
	Segs   []seg
	Slow   time.Duration
	Submit bool // the application submits messages meanwhile
	Note   string
}

func (s *scen) input() any {
	var segs []string
	for i, g := range s.Segs {
		if i > 20 {
			segs = append(segs, "...")
			break
		}
		segs = append(segs, fmt.Sprintf("%d bytes at +%v", g.n, g.at))
	}
	st := fmt.Sprintf("%q", s.Stream[:min(len(s.Stream), 120)])
	return map[string]any{"binary": s.Binary, "probe_answer": s.Reply, "messages": s.Names, "stream": st, "stream_bytes": len(s.Stream), "segments": segs, "slow_consumer": s.Slow.String(), "submitting": s.Submit, "note": s.Note}
}

func (s *scen) scenario(group string, bound int) *ex.Scenario {
	return &ex.Scenario{Group: group, Bound: bound, Leaky: true, Input: s.input, Body: func(x *ex.X) string {
		return s.play(x, sim.New(x, s.attempt()), false)
	}}
}

// two are two clients of two panels in one process.
func two(group string, bound int, s, t *scen) *ex.Scenario {
	in := func() any { return []any{s.input(), t.input()} }
	return &ex.Scenario{Group: group, Bound: bound, Leaky: true, Input: in, Body: func(x *ex.X) string {
		n := sim.New(x, s.attempt())
		m := n.Also(cl.OtherAddr, t.attempt())
		return cl.Beside(func() string { return s.play(x, n, true) }, func() string { return t.play(x, m, true) })
	}}
}

func (s *scen) start() time.Duration {
	if !s.Binary && s.Reply == "" {
		return 2100 * ms
	}
	return 5 * ms
}

func (s *scen) attempt() sim.Attempt {
	start := s.start()
	var steps []sim.Step
	if s.Binary {
		steps = append(steps, sim.Step{At: 1 * time.Millisecond, Data: cl.Ack})
	} else if s.Reply != "" {
		steps = append(steps, sim.Step{At: 1 * time.Millisecond, Data: []byte(s.Reply)})
	}
	off := 0
	for _, g := range s.Segs {
		steps = append(steps, sim.Step{At: start + g.at, Data: s.Stream[off : off+g.n]})
		off += g.n
	}
	return sim.Attempt{Steps: steps}
}

func (s *scen) play(x *ex.X, n *sim.Net, beside bool) string {
	start := s.start()
	last := time.Duration(0)
	if len(s.Segs) > 0 {
		last = s.Segs[len(s.Segs)-1].at
	}
	r := cl.Start(x, n, cl.Opts{SlowConsumer: s.Slow, Beside: beside})
	if s.Submit {
		go func() {
			for i := 0; i < 3; i++ {
				select {
				case r.To <- []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_PING}, {Command: &rwp.Command{ClearAll: true}}}:
				case <-time.After(start + last + 3*time.Second):
					return
				}
				time.Sleep(start)
			}
		}()
	}
	time.Sleep(start + last + 4*time.Second + time.Duration(len(s.Want))*s.Slow)
	if v := cl.SameOut(r.Messages(), s.Want); v != "" {
		return v
	}
	if r.NilMsg {
		return "nil: a nil message was delivered"
	}
	evs := r.Events()
	if len(evs) != 1 || evs[0].Kind != "connect" || evs[0].Binary != s.Binary {
		return "connection: the connection was not kept: " + cl.EvString(evs)
	}
	if v := r.Stop(30 * time.Second); v != "" && !strings.HasPrefix(v, "socket") && !strings.HasPrefix(v, "waitgroup") && !strings.HasPrefix(v, "no-return") {
		return v
	}
	// After the stop, still nothing else.
	return cl.SameOut(r.Messages(), s.Want)
}

// --- messages -----------------------------------------------------------------

type msg struct {
	name string
	wire []byte
	want []*rwp.OutboundMessage
}

func bmsg(m *rwp.OutboundMessage) msg {
	f := cl.OutFrame(m)
	return msg{fmt.Sprintf("payload of %d bytes", len(f)-4), f, []*rwp.OutboundMessage{m}}
}

// sized is a message whose payload has exactly n bytes.
func sized(n int) msg {
	if n == 0 {
		return bmsg(&rwp.OutboundMessage{})
	}
	for _, flow := range []rwp.OutboundMessage_FlowMsg{0, rwp.OutboundMessage_PING} {
		for d := 0; d < 16 && n-d >= 0; d++ {
			t := make([]byte, max(0, n-d))
			for i := range t {
				t[i] = "abcdefghij\nklmnop\rqrstuvw\x00"[i%26]
			}
			m := &rwp.OutboundMessage{FlowMessage: flow}
			if len(t) > 0 || d == 3 || d == 5 {
				m.Message = &rwp.Message{Message: string(t)}
			}
			if proto.Size(m) == n {
				return bmsg(m)
			}
		}
	}
	panic(fmt.Sprint("no message of size ", n))
}

func event(id, v int) msg {
	switch v {
	case 0:
		return bmsg(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(id), Binary: &rwp.BinaryEvent{Pressed: true}}}})
	case 1:
		return bmsg(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(id), Pulsed: &rwp.PulsedEvent{Value: -1}}}})
	}
	return bmsg(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_BSY, Events: []*rwp.HWCEvent{{HWCID: uint32(id), Absolute: &rwp.AbsoluteEvent{Value: 1000}}}})
}

func line(text, eol string) msg {
	m := msg{name: fmt.Sprintf("%q", text+eol), wire: []byte(text + eol)}
	if len(text) > 40 {
		m.name = fmt.Sprintf("%q... (%d bytes)", text[:30], len(text))
	}
	k, v, _ := strings.Cut(text, "=")
	one := func(o *rwp.OutboundMessage) { m.want = append(m.want, o) }
	ev := func(e *rwp.HWCEvent) { one(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}) }
	switch {
	case text == "":
	case text == "ping":
		one(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING})
	case text == "RDY":
		one(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_RDY})
	case text == "HWC#1=Down":
		ev(&rwp.HWCEvent{HWCID: 1, Binary: &rwp.BinaryEvent{Pressed: true}})
	case text == "HWC#12.4=Up":
		ev(&rwp.HWCEvent{HWCID: 12, Binary: &rwp.BinaryEvent{Edge: 4}})
	case text == "HWC#7=Enc:-2":
		ev(&rwp.HWCEvent{HWCID: 7, Pulsed: &rwp.PulsedEvent{Value: -2}})
	case text == "map=3:4":
		one(&rwp.OutboundMessage{HWCavailability: map[uint32]uint32{3: 4}})
	case k == "_model":
		one(&rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: v}})
	case k == "_panelTopology_HWC":
		one(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: v}})
	case k == "ErrorMsg":
		one(&rwp.OutboundMessage{ErrorMessage: &rwp.Message{Message: v}})
	default:
		panic(text)
	}
	return m
}

func build(bin bool, ms ...msg) *scen {
	s := &scen{Binary: bin}
	for _, m := range ms {
		s.Stream = append(s.Stream, m.wire...)
		s.Ends = append(s.Ends, len(s.Stream))
		s.Want = append(s.Want, m.want...)
		s.Names = append(s.Names, m.name)
	}
	return s
}

// at returns a copy of s cut at the given offsets, with the pauses.
func (s *scen) cut(cuts []int, pause func(off int, boundary bool) time.Duration) *scen {
	t := *s
	t.Segs = nil
	last := 0
	at := time.Duration(0)
	isEnd := map[int]bool{}
	for _, e := range s.Ends {
		isEnd[e] = true
	}
	for _, k := range append(append([]int{}, cuts...), len(s.Stream)) {
		if k <= last || k > len(s.Stream) {
			continue
		}
		t.Segs = append(t.Segs, seg{at, k - last})
		at += pause(k, isEnd[k])
		last = k
	}
	return &t
}

func every(d time.Duration) func(int, bool) time.Duration {
	return func(int, bool) time.Duration { return d }
}

// inner pauses d inside a message and e between messages.
func inner(d, e time.Duration) func(int, bool) time.Duration {
	return func(_ int, b bool) time.Duration {
		if b {
			return e
		}
		return d
	}
}

const ms = time.Millisecond

func segmentations() (out []*ex.Scenario) {
	th := c.Thorough()
	add := func(g string, s *scen) { out = append(out, s.scenario(g, 0)) }
	bin := []*scen{
		build(true, event(1, 0)),
		build(true, sized(0), event(1, 1)),
		build(true, event(1, 0), event(2, 1), sized(2)),
		build(true, sized(10), sized(0), sized(0), event(300, 2)),
	}
	var asc []*scen
	for _, reply := range []string{"", "RDY\n", "map=1:1\r\n"} {
		for _, eol := range []string{"\n", "\r\n"} {
			a := build(false, line("HWC#1=Down", eol), line("map=3:4", eol))
			b := build(false, line("", eol), line("ping", "\n"), line("", "\n"), line("RDY", eol))
			d := build(false, line("_model=A", eol), line("HWC#7=Enc:-2", "\n"))
			a.Reply, b.Reply, d.Reply = reply, reply, reply
			asc = append(asc, a, b, d)
		}
	}
	// 1. every single and double cut of short streams, with pauses
	for _, s := range append(append([]*scen{}, bin...), asc...) {
		n := len(s.Stream)
		add("whole", s.cut(nil, every(0)))
		for i := 1; i < n; i++ {
			for _, p := range []time.Duration{ms, 900 * ms, 1900 * ms} {
				add("one cut", s.cut([]int{i}, inner(p, p)))
			}
			if !s.Binary {
				for _, p := range []time.Duration{2500 * ms, 61 * time.Second} {
					add("one cut", s.cut([]int{i}, inner(p, p)))
				}
			}
			for j := i + 1; j < n; j++ {
				add("two cuts", s.cut([]int{i, j}, every(ms)))
				add("two cuts, long pauses", s.cut([]int{i, j}, inner(900*ms, 5*time.Second)))
				if th || n < 24 {
					for k := j + 1; k < n; k++ {
						add("three cuts", s.cut([]int{i, j, k}, inner(600*ms, 3*time.Second)))
					}
				}
			}
		}
		var all []int
		for i := 1; i < n; i++ {
			all = append(all, i)
		}
		add("byte by byte", s.cut(all, every(0)))
		add("byte by byte", s.cut(all, every(ms)))
		add("byte by byte", s.cut(all, inner(40*ms, 3*time.Second)))
	}
	// 2. every segmentation of short streams
	for _, s := range []*scen{build(true, event(1, 0)), build(true, sized(0), sized(0), sized(2)), build(false, line("RDY", "\r\n"), line("ping", "\n"))} {
		n := len(s.Stream)
		lim := vk.Pick(c, 15, 19)
		if n > lim {
			// the first lim bytes in every way, the rest in one piece
			n = lim
		}
		for m := 0; m < 1<<(n-1); m++ {
			var cuts []int
			for i := 1; i < n; i++ {
				if m>>(i-1)&1 == 1 {
					cuts = append(cuts, i)
				}
			}
			if len(s.Stream) > n {
				cuts = append(cuts, n)
			}
			add("every segmentation", s.cut(cuts, every(ms)))
		}
	}
	// 3. idle periods at every place and of every length
	idle := []time.Duration{0, 100 * ms, 1900 * ms, 2100 * ms, 10 * time.Second, time.Hour}
	for _, s := range []*scen{build(true, event(1, 0), event(2, 1), event(3, 2)), build(true, sized(0), sized(0), sized(1000)), build(false, line("HWC#1=Down", "\n"), line("HWC#12.4=Up", "\r\n"), line("map=3:4", "\n"))} {
		for _, a := range idle {
			for _, b := range idle {
				for _, f := range idle {
					gaps := []time.Duration{a, b}
					k := 0
					t := s.cut(s.Ends[:len(s.Ends)-1], func(int, bool) time.Duration { k++; return gaps[min(k, 2)-1] })
					for i := range t.Segs {
						t.Segs[i].at += f
					}
					add("idle periods", t)
				}
			}
		}
	}
	// 4. payload sizes, cut around the header and at the ends
	sizes := []int{2, 3 + 2, 9, 10, 13, 127, 128, 129, 130, 255, 256, 257, 511, 512, 995, 996, 997, 999, 1000, 1001, 1020, 1023, 1024, 1025, 1028, 1460, 2048, 2570, 4091, 4092, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65531, 65535, 65536, 65537, 131072, 262144, 499990, 499998, 499999}
	step := vk.Pick(c, 7, 1)
	for n := 5; n <= vk.Pick(c, 1100, 4200); n += step {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		s := build(true, event(1, 0), sized(n), event(2, 1))
		a := s.Ends[0]
		e := s.Ends[1]
		pts := []int{a, a + 1, a + 2, a + 3, a + 4, a + 5, (a + e) / 2, e - 1, e, e + 1, e + 4}
		if n > 3000 && !th {
			pts = []int{a, a + 2, a + 4, a + 5, e - 1, e, e + 2}
		}
		for i := range pts {
			add("sizes, one cut", s.cut(pts[i:i+1], every(700*ms)))
			for j := i + 1; j < len(pts); j++ {
				add("sizes, two cuts", s.cut([]int{pts[i], pts[j]}, inner(600*ms, 2500*ms)))
			}
		}
		for _, mtu := range []int{1460, 536, 4096, 1000, 3000, 65536} {
			if n/mtu > 600 {
				continue
			}
			var cuts []int
			for k := mtu; k < len(s.Stream); k += mtu {
				cuts = append(cuts, k)
			}
			add("sizes, equal segments", s.cut(cuts, every(0)))
			add("sizes, equal segments", s.cut(cuts, inner(time.Duration(1500/(len(cuts)+1))*ms, 3*time.Second)))
		}
		if n <= 1100 {
			var all []int
			for i := 1; i < len(s.Stream); i++ {
				all = append(all, i)
			}
			add("sizes, byte by byte", s.cut(all, inner(ms, 3*time.Second)))
		}
	}
	// 5. long lines
	for _, n := range []int{100, 1000, 4090, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 70000, 300000} {
		for _, eol := range []string{"\n", "\r\n"} {
			s := build(false, line("HWC#1=Down", eol), line("_panelTopology_HWC="+strings.Repeat("{x}", n/3+1)[:n-19], eol), line("HWC#7=Enc:-2", eol))
			s.Reply = "RDY\n"
			a, e := s.Ends[0], s.Ends[1]
			for _, cuts := range [][]int{nil, {a}, {a + 1}, {a + 4096}, {a + 4095}, {a + 4097}, {e - 1}, {e - 2}, {e}, {e + 1}, {4096, 8192}, {4095, 4096}, {a + 5, e - 1}} {
				add("long lines", s.cut(cuts, inner(2500*ms, 2500*ms)))
				add("long lines", s.cut(cuts, every(0)))
			}
			var mtu []int
			for k := 1460; k < len(s.Stream); k += 1460 {
				mtu = append(mtu, k)
			}
			add("long lines", s.cut(mtu, every(ms)))
		}
	}
	for _, n := range []int{1_100_000, 5_000_000} {
		s := build(false, line("HWC#1=Down", "\n"), line("_panelTopology_HWC="+strings.Repeat("{x}", n/3+1)[:n-19], "\n"), line("HWC#7=Enc:-2", "\r\n"))
		s.Reply = "RDY\n"
		a, e := s.Ends[0], s.Ends[1]
		for _, cuts := range [][]int{nil, {a + n/2}, {e - 1}, {e}} {
			add("megabyte lines", s.cut(cuts, inner(2500*ms, 2500*ms)))
		}
	}
	// 6. slow application
	for _, s := range []*scen{build(true, event(1, 0), event(2, 1), sized(1000), event(3, 2), sized(0)), build(false, line("HWC#1=Down", "\n"), line("HWC#12.4=Up", "\r\n"), line("map=3:4", "\n"), line("ping", "\n"))} {
		for _, slow := range []time.Duration{ms, 500 * ms, 3 * time.Second, 20 * time.Second} {
			for _, p := range []time.Duration{0, ms, 1900 * ms, 4 * time.Second} {
				t := s.cut(s.Ends[:len(s.Ends)-1], every(p))
				t.Slow = slow
				add("slow application", t)
				t2 := s.cut([]int{s.Ends[0] + 2, s.Ends[1] + 5, s.Ends[2] + 1}, every(min(p, 900*ms)))
				t2.Slow = slow
				add("slow application", t2)
			}
		}
	}
	// 7. many messages
	var many []msg
	for i := 0; i < 300; i++ {
		many = append(many, event(i+1, i%3))
	}
	s := build(true, many...)
	for _, k := range []int{0, 1, 2, 3, 4, 5, 7, 11, 100, 1000} {
		var cuts []int
		for o := k; k > 0 && o < len(s.Stream); o += k {
			cuts = append(cuts, o)
		}
		add("bursts", s.cut(cuts, every(0)))
		add("bursts", s.cut(cuts, inner(ms, ms)))
	}
	for i := 300; i < 6000; i++ {
		many = append(many, event(i+1, i%3))
	}
	s = build(true, many...)
	for _, k := range []int{0, 1460, 4097} {
		var cuts []int
		for o := k; k > 0 && o < len(s.Stream); o += k {
			cuts = append(cuts, o)
		}
		add("long streams", s.cut(cuts, every(0)))
		add("long streams", s.cut(cuts, inner(ms, ms)))
		add("long streams", s.cut(cuts, every(1700*ms)))
	}
	add("long streams", s.cut(s.Ends[:len(s.Ends)-1], every(0)))
	add("long streams", s.cut(s.Ends[:len(s.Ends)-1], every(3*time.Second)))
	var lines []msg
	for i := 0; i < 300; i++ {
		lines = append(lines, line([]string{"HWC#1=Down", "HWC#12.4=Up", "map=3:4"}[i%3], []string{"\n", "\r\n"}[i/3%2]))
	}
	l := build(false, lines...)
	l.Reply = "RDY\n"
	for _, k := range []int{0, 1, 2, 3, 5, 10, 11, 100, 1460, 4096} {
		var cuts []int
		for o := k; k > 0 && o < len(l.Stream); o += k {
			cuts = append(cuts, o)
		}
		add("bursts", l.cut(cuts, every(0)))
		add("bursts", l.cut(cuts, every(ms)))
	}
	for i := 300; i < 6000; i++ {
		lines = append(lines, line([]string{"HWC#1=Down", "HWC#12.4=Up", "map=3:4", "ping", ""}[i%5], []string{"\n", "\r\n"}[i/5%2]))
	}
	l = build(false, lines...)
	l.Reply = "RDY\n"
	for _, k := range []int{0, 1460, 4097} {
		var cuts []int
		for o := k; k > 0 && o < len(l.Stream); o += k {
			cuts = append(cuts, o)
		}
		add("long streams", l.cut(cuts, every(0)))
		add("long streams", l.cut(cuts, every(1700*ms)))
	}
	add("long streams", l.cut(l.Ends[:len(l.Ends)-1], every(0)))
	add("long streams", l.cut(l.Ends[:len(l.Ends)-1], every(3*time.Second)))
	return
}

// interleavings explores all schedules with up to one (two) deviations.
func interleavings() (out []*ex.Scenario) {
	b := 2
	type v struct {
		s *scen
		b int
	}
	var vs []v
	s1 := build(true, event(1, 0), event(2, 1))
	s2 := build(false, line("HWC#1=Down", "\r\n"), line("map=3:4", "\n"))
	s2.Reply = "RDY\n"
	s3 := build(false, line("HWC#1=Down", "\n"), line("map=3:4", "\n"))
	for _, s := range []*scen{s1, s2, s3} {
		for _, p := range []time.Duration{0, ms, 2500 * ms} {
			for _, sub := range []bool{false, true} {
				for _, slow := range []time.Duration{0, ms} {
					t := s.cut(s.Ends[:1], every(p))
					t.Submit, t.Slow = sub, slow
					vs = append(vs, v{t, b})
					if p < 2*time.Second {
						u := s.cut([]int{2, 4, s.Ends[0] + 3}, every(p))
						u.Submit, u.Slow = sub, slow
						vs = append(vs, v{u, b})
						w := s.cut(nil, every(p))
						w.Submit, w.Slow = sub, slow
						vs = append(vs, v{w, b})
					}
				}
			}
		}
	}
	big := build(true, event(1, 0), sized(5000), event(2, 1)).cut([]int{1000, 3000}, every(500*ms))
	big.Submit = true
	vs = append(vs, v{big, b})
	if c.Thorough() {
		for i := range vs {
			if i%4 == 0 {
				vs[i].b = 3
			}
		}
	}
	// two clients beside each other
	var ps []*scen
	for _, t := range []*scen{build(true, event(1, 0), event(2, 1)), build(true, event(70, 2), sized(300), event(71, 1)), build(true, sized(9), event(5, 0)),
		build(false, line("HWC#1=Down", "\n"), line("map=3:4", "\r\n")), build(false, line("HWC#12.4=Up", "\n"), line("_model=XYZ", "\n"))} {
		if !t.Binary {
			t.Reply = "RDY\n"
		}
		ps = append(ps, t.cut(nil, every(0)), t.cut([]int{2, 6, t.Ends[0], t.Ends[0] + 5}, every(0)), t.cut([]int{3, t.Ends[0] + 2}, every(ms)))
	}
	for i := range ps {
		for j := i; j < len(ps); j++ {
			if i%3 == j%3 || c.Thorough() {
				out = append(out, two("two clients, bound 1", 1, ps[i], ps[j]))
			}
		}
	}
	for _, k := range vs {
		out = append(out, k.s.scenario(fmt.Sprintf("bound %d", k.b), k.b))
	}
	return
}

var _ = os.Args

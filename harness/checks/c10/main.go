// C10: malformed and stalled streams. Every header value class, every
// truncation point, arbitrary payloads of correct length, at every position and
// in every combination over reconnects, against a scripted panel in virtual
// time.
package main

import (
	"encoding/binary"
	"fmt"
	"runtime/metrics"
	"time"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"

	"verif.local/harness/cl"
	"verif.local/harness/ex"
	"verif.local/harness/sim"
	"verif.local/harness/vk"
)

var c *vk.Check

const (
	ms    = time.Millisecond
	limit = 500000
)

func main() {
	vk.Main("C10", func(k *vk.Check) {
		c = k
		c.Assume("A stalled frame counts from its last byte; the client has 2 s + 1 s to drop the connection, an over-limit prefix must be dropped within 0.5 s.",
			"A frame of correct length that is not a valid protobuf may be delivered as at most one message of any content; a valid one is delivered as it is.",
			"Memory: an execution whose connections carry k payload bytes may allocate 3 MB + 8 k (an over-limit prefix announces up to 4 GB).",
			"The network is simulated; time is virtual.")
		o := ex.Options{Setup: cl.Warm, Mask: []string{"converterFunctions.go"}}
		ex.Explore(c, "faults", faults, o)
		ex.Explore(c, "payloads", payloads, o)
		ex.Explore(c, "interleavings", interleavings, o)
	})
}

// part is a piece of one connection's stream.
type part struct {
	at   time.Duration
	data []byte
}

// fault is the stream of one connection after the acknowledge.
type fault struct {
	name  string
	parts []part
	want  []*rwp.OutboundMessage
	// when the client must have dropped the connection, after the accept
	from, to time.Duration
}

const t0 = 5 * ms // the stream starts here

func pre(k int) (b []byte, w []*rwp.OutboundMessage) {
	for i := 0; i < k; i++ {
		m := cl.Event(100+i, i)
		b = append(b, cl.OutFrame(m)...)
		w = append(w, m)
	}
	return
}

var tail = append(cl.OutFrame(cl.Event(666, 0)), cl.OutFrame(cl.Event(667, 1))...)

// over is an over-limit prefix after k frames, cut after cut bytes of it, with
// more behind it.
func over(v uint32, k, cut int, follow bool) fault {
	b, w := pre(k)
	h := binary.LittleEndian.AppendUint32(nil, v)
	f := fault{name: fmt.Sprintf("%d frames, prefix %d cut after %d, more behind: %v", k, v, cut, follow), want: w}
	rest := append([]byte{}, h[cut:]...)
	if follow {
		rest = append(rest, tail...)
	}
	at := t0
	f.parts = append(f.parts, part{at, append(b, h[:cut]...)})
	if cut > 0 {
		at += 300 * ms
	}
	f.parts = append(f.parts, part{at, rest})
	f.from, f.to = at, at+500*ms
	return f
}

// stall truncates a frame of payload size n after cut bytes, after k frames;
// resume > 0: the rest and more follows that much later.
func stall(n, cut, k int, gap, resume time.Duration) fault {
	b, w := pre(k)
	fr := cl.OutFrame(cl.OutSized(n))
	f := fault{name: fmt.Sprintf("%d frames, frame of %d+4 bytes stalls after %d (%v after them), resumes %v", k, n, cut, gap, resume), want: w}
	at := t0
	if gap > 0 {
		f.parts = append(f.parts, part{at, b})
		at += gap
		f.parts = append(f.parts, part{at, fr[:cut]})
	} else {
		f.parts = append(f.parts, part{at, append(b, fr[:cut]...)})
	}
	if resume > 0 {
		f.parts = append(f.parts, part{at + resume, append(append([]byte{}, fr[cut:]...), tail...)})
	}
	f.from, f.to = at, at+3*time.Second
	return f
}

// slowStall stalls after a first part and a second one.
func slowStall(n, c1, c2 int) fault {
	fr := cl.OutFrame(cl.OutSized(n))
	f := fault{name: fmt.Sprintf("frame of %d+4 bytes: %d bytes, 500 ms later %d bytes, then silence", n, c1, c2-c1)}
	f.parts = []part{{t0, fr[:c1]}, {t0 + 500*ms, fr[c1:c2]}}
	f.from, f.to = t0, t0+500*ms+3*time.Second
	return f
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// scenario runs the faults on successive connections, then a good connection.
func scenario(group string, bound int, fs ...fault) *ex.Scenario {
	return &ex.Scenario{Group: group, Bound: bound, Leaky: true, Input: input(fs), Body: func(x *ex.X) string {
		at, good, carried := script(fs)
		return play(x, sim.New(x, at...), fs, good, carried, false)
	}}
}

// two are two clients of two panels in one process.
func two(group string, bound int, fs, gs []fault) *ex.Scenario {
	in := func() any { return []any{input(fs)(), input(gs)()} }
	return &ex.Scenario{Group: group, Bound: bound, Leaky: true, Input: in, Body: func(x *ex.X) string {
		at, good, c1 := script(fs)
		bt, good2, c2 := script(gs)
		n := sim.New(x, at...)
		m := n.Also(cl.OtherAddr, bt...)
		return cl.Beside(func() string { return play(x, n, fs, good, c1+c2+1<<18, true) }, func() string { return play(x, m, gs, good2, c1+c2+1<<18, true) })
	}}
}

func input(fs []fault) func() any {
	return func() any {
		var ns []any
		for _, f := range fs {
			var ps []string
			for _, p := range f.parts {
				d := fmt.Sprintf("%x", p.data[:min(len(p.data), 40)])
				ps = append(ps, fmt.Sprintf("+%v: %d bytes %s", p.at, len(p.data), d))
			}
			ns = append(ns, map[string]any{"fault": f.name, "segments": ps})
		}
		return ns
	}
}

// script is what the panel does on every connection; carried is the number of bytes.
func script(fs []fault) (at []sim.Attempt, good *rwp.OutboundMessage, carried int) {
	for _, f := range fs {
		st := []sim.Step{{At: ms, Data: cl.Ack}}
		for _, p := range f.parts {
			st = append(st, sim.Step{At: p.at, Data: p.data})
			carried += len(p.data)
		}
		at = append(at, sim.Attempt{Steps: st})
	}
	good = cl.Event(7, 1)
	at = append(at, sim.Attempt{Steps: []sim.Step{{At: ms, Data: cl.Ack}, {At: t0, Data: cl.OutFrame(good)}}})
	return
}

func play(x *ex.X, n *sim.Net, fs []fault, good *rwp.OutboundMessage, carried int, beside bool) string {
	a0 := allocated()
	r := cl.Start(x, n, cl.Opts{Beside: beside})
	var total time.Duration
	for _, f := range fs {
		total += f.to + 1100*ms
	}
	time.Sleep(total + time.Second)
	var want []*rwp.OutboundMessage
	for _, f := range fs {
		want = append(want, f.want...)
	}
	want = append(want, good)
	evs := r.Events()
	for i, f := range fs {
		cn := n.Conn(i)
		if cn == nil {
			return fmt.Sprintf("no-reconnect: connection %d was never made: %s", i, cl.EvString(evs))
		}
		if len(evs) <= 2*i+1 || evs[2*i].Kind != "connect" || evs[2*i+1].Kind != "disconnect" {
			return fmt.Sprintf("callbacks: fault %d (%s): %s", i, f.name, cl.EvString(evs))
		}
		if evs[2*i+1].Cancel {
			return fmt.Sprintf("cancelled: fault %d (%s) was reported as cancelled", i, f.name)
		}
		d := evs[2*i+1].T - cn.OpenedAt
		if d > f.to || !cn.IsClosed() || cn.ClosedAt-cn.OpenedAt > f.to {
			return fmt.Sprintf("late: fault %d (%s): dropped %v after the accept, expected by %v", i, f.name, d, f.to)
		}
		if d < f.from {
			return fmt.Sprintf("early: fault %d (%s): dropped %v after the accept, before the fault at %v", i, f.name, d, f.from)
		}
	}
	if v := cl.SameOut(r.Messages(), want); v != "" {
		return v
	}
	if len(evs) != 2*len(fs)+1 || evs[2*len(fs)].Kind != "connect" {
		return "callbacks: " + cl.EvString(evs)
	}
	if used := allocated() - a0; used > 3<<20+8*uint64(carried) {
		return fmt.Sprintf("memory: %d bytes were allocated for %d bytes received", used, carried)
	}
	r.Stop(10 * time.Second)
	return cl.SameOut(r.Messages(), want)
}

func headerValues() (vs []uint32) {
	seen := map[uint32]bool{}
	add := func(v uint64) {
		if v >= limit && v < 1<<32 && !seen[uint32(v)] {
			seen[uint32(v)] = true
			vs = append(vs, uint32(v))
		}
	}
	for d := uint64(0); d < uint64(vk.Pick(c, 300, 5000)); d++ {
		add(limit + d)
		add(1<<32 - 1 - d)
		add(1<<31 - 100 + d)
	}
	for s := 18; s <= 32; s++ {
		for d := -2; d <= 2; d++ {
			add(uint64(int64(1)<<s + int64(d)))
			add(uint64(int64(3)<<s + int64(d)))
		}
	}
	for _, base := range []uint32{0, 0xffffffff, 0x00010203} {
		for i := 0; i < 4; i++ {
			for b := 0; b < 256; b++ {
				add(uint64(base&^(0xff<<(8*i)) | uint32(b)<<(8*i)))
			}
		}
	}
	for i := 0; i < 4; i++ {
		for j := i + 1; j < 4; j++ {
			for _, a := range []uint32{0, 1, 7, 0x7f, 0x80, 0xff} {
				for _, b := range []uint32{0, 1, 7, 0x7f, 0x80, 0xff} {
					add(uint64(a<<(8*i) | b<<(8*j)))
				}
			}
		}
	}
	for _, s := range []string{"map=", "RDY\n", "HWC#", "_mod", "Erro", "HTTP", "GET ", "\x00\x00\x00\x80", "ping", "\x7fELF"} {
		add(uint64(binary.LittleEndian.Uint32([]byte(s))))
	}
	return
}

func faults() (out []*ex.Scenario) {
	th := c.Thorough()
	for _, v := range headerValues() {
		out = append(out, scenario("prefix", 0, over(v, 0, 0, false)), scenario("prefix", 0, over(v, 1, 0, true)))
	}
	for _, v := range []uint32{500000, 500001, 524288, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for k := 0; k < 4; k++ {
			for cut := 0; cut < 4; cut++ {
				for _, f := range []bool{false, true} {
					out = append(out, scenario("prefix positions", 0, over(v, k, cut, f)))
				}
			}
		}
	}
	// every truncation point
	resumes := []time.Duration{0, 3500 * ms, 10 * time.Second}
	for _, n := range []int{0, 2, 6, 13, 20, vk.Pick(c, 60, 300)} {
		for cut := 1; cut < n+4; cut++ {
			for _, k := range []int{0, 1, 3} {
				for _, gap := range []time.Duration{0, 700 * ms, 5 * time.Second} {
					for _, rs := range resumes {
						out = append(out, scenario("truncation", 0, stall(n, cut, k, gap, rs)))
					}
				}
			}
		}
	}
	for _, n := range []int{995, 1000, 1001, 4091, 4092, 4096, 65536, 499998, 499999} {
		for _, cut := range []int{1, 2, 3, 4, 5, 6, n / 2, n, n + 2, n + 3} {
			for _, rs := range resumes {
				out = append(out, scenario("truncation of big frames", 0, stall(n, cut, 1, 0, rs)))
			}
		}
	}
	for _, n := range []int{2, 6, 20} {
		for c1 := 1; c1 < n+4; c1++ {
			for c2 := c1 + 1; c2 < n+4; c2++ {
				out = append(out, scenario("stall in two parts", 0, slowStall(n, c1, c2)))
			}
		}
	}
	// combinations over reconnects
	kinds := []fault{over(500000, 1, 0, true), over(1<<32-1, 0, 2, true), stall(6, 2, 1, 0, 0), stall(6, 4, 0, 0, 3500*ms), stall(20, 9, 2, 0, 0), stall(2, 5, 1, time.Second, 0)}
	for _, a := range kinds {
		for _, b := range kinds {
			out = append(out, scenario("two faults", 0, a, b))
			out = append(out, two("two clients", 0, []fault{a}, []fault{b}), two("two clients", 0, []fault{a, b}, []fault{b, a}), two("two clients", 0, []fault{a, b}, nil))
			for _, d := range kinds {
				out = append(out, scenario("three faults", 0, a, b, d))
				if a.name == d.name { // and a long history
					var fs []fault
					for len(fs) < 60 {
						fs = append(fs, a, b, d, b)
					}
					out = append(out, scenario("sixty faults", 0, fs...))
				}
				if th {
					for _, e := range kinds {
						out = append(out, scenario("four faults", 0, a, b, d, e))
					}
				}
			}
		}
	}
	return
}

// payloads sends frames of correct length and arbitrary content, each followed
// by a marker.
func payloads() (out []*ex.Scenario) {
	var batch [][]byte
	kind := ""
	flush := func() {
		if len(batch) == 0 {
			return
		}
		ps := batch
		batch = nil
		out = append(out, payloadScenario(kind, ps))
	}
	add := func(k string, p []byte) {
		if k != kind || len(batch) >= 200 {
			flush()
		}
		kind = k
		batch = append(batch, append([]byte{}, p...))
	}
	for i := 0; i < 256; i++ {
		add("all payloads of 1 byte", []byte{byte(i)})
	}
	for i := 0; i < 65536; i++ {
		add("all payloads of 2 bytes", []byte{byte(i), byte(i >> 8)})
	}
	alpha := []byte{0, 1, 2, 0x07, 0x08, 0x0a, 0x0b, 0x0c, 0x0f, 0x12, 0x22, 0x42, 0x7f, 0x80, 0xc2, 0xf0, 0xff}
	var rec func(p []byte, n int)
	rec = func(p []byte, n int) {
		if len(p) == n {
			add(fmt.Sprintf("payloads of %d bytes over %d values", n, len(alpha)), p)
			return
		}
		for _, a := range alpha {
			rec(append(p[:len(p):len(p)], a), n)
		}
	}
	for n := 3; n <= vk.Pick(c, 4, 5); n++ {
		rec(nil, n)
	}
	// every single-byte change and truncation of valid payloads
	for _, m := range []*rwp.OutboundMessage{cl.Event(3, 0), cl.Event(300, 2), cl.OutSized(20), {HWCavailability: map[uint32]uint32{1: 2}}, {PanelInfo: &rwp.PanelInfo{Model: "SK", Serial: "1", RawPanelSupport: &rwp.RawPanelSupport{ASCII: true}}}, {PanelTopology: &rwp.PanelTopology{Json: "{}", Svgbase: "<svg/>"}}, {Registers: []*rwp.Register{{Reg: 1, Id: "A", Value: 7}}}} {
		b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		for i := range b {
			add("truncated messages", b[:i])
			for v := 0; v < 256; v++ {
				d := append([]byte{}, b...)
				d[i] = byte(v)
				add("changed messages", d)
			}
		}
	}
	flush()
	// hostile structures
	rep := func(b string, n int) []byte {
		o := make([]byte, 0, n)
		for len(o)+len(b) <= n {
			o = append(o, b...)
		}
		return o
	}
	for _, h := range []string{"\x0b", "\x42\xff\xff\xff\xff\x0f", "\x42\x80", "\x80", "\xff", "\x00", "\x42\x00", "\x12\x00", "\x42\x02\x08\x01", "\xf2\x01\x00", "\n", "RDY\n"} {
		for _, n := range []int{6, 7, 100, 1000, 20000, 499998} {
			if n == 499998 && !c.Thorough() && h != "\x0b" && h != "\xff" {
				continue
			}
			add("hostile payloads", rep(h, n))
			flush()
		}
	}
	return
}

func payloadScenario(kind string, ps [][]byte) *ex.Scenario {
	return &ex.Scenario{Group: kind, Leaky: true, Input: func() any {
		var s []string
		for _, p := range ps {
			s = append(s, fmt.Sprintf("%x", p[:min(len(p), 60)]))
		}
		return map[string]any{"payloads, each followed by a marker": s}
	}, Body: func(x *ex.X) string {
		st := []sim.Step{{At: ms, Data: cl.Ack}}
		for i, p := range ps {
			st = append(st, sim.Step{At: t0, Data: append(cl.Frame(p), cl.OutFrame(cl.Event(i+1, 1))...)})
		}
		n := sim.New(x, sim.Attempt{Steps: st})
		r := cl.Start(x, n, cl.Opts{})
		time.Sleep(5 * time.Second)
		got := r.Messages()
		if r.NilMsg {
			return "nil: a nil message was delivered"
		}
		g := 0
		for i, p := range ps {
			mark := cl.Event(i+1, 1)
			m := &rwp.OutboundMessage{}
			valid := proto.Unmarshal(p, m) == nil
			if valid {
				if g >= len(got) || !proto.Equal(got[g].M, m) {
					return fmt.Sprintf("valid: payload %x was not delivered as it is", p[:min(len(p), 60)])
				}
				g++
			} else if g < len(got) && !proto.Equal(got[g].M, mark) {
				g++ // at most one message for an invalid payload
			} else if g+1 < len(got) && proto.Equal(got[g].M, mark) && proto.Equal(got[g+1].M, mark) {
				g++
			}
			if g >= len(got) || !proto.Equal(got[g].M, mark) {
				return fmt.Sprintf("desync: the frame after payload %x was not delivered intact", p[:min(len(p), 60)])
			}
			g++
		}
		if g != len(got) {
			return fmt.Sprintf("extra: %d messages more than were sent", len(got)-g)
		}
		if evs := r.Events(); len(evs) != 1 {
			return "connection: the connection was not kept: " + cl.EvString(evs)
		}
		r.Stop(10 * time.Second)
		return ""
	}}
}

func interleavings() (out []*ex.Scenario) {
	b := 2
	fs := []fault{over(500000, 1, 0, true), over(1<<32-1, 0, 2, true), over(500000, 2, 0, false), stall(6, 2, 1, 0, 0), stall(6, 4, 0, 0, 3500*ms), stall(20, 9, 2, 0, 0), stall(2, 5, 1, time.Second, 0), stall(20, 23, 1, 0, 0)}
	for _, f := range fs {
		out = append(out, scenario(fmt.Sprintf("bound %d", b), b, f))
	}
	for _, f := range fs[:4] {
		for _, g := range fs[:4] {
			out = append(out, scenario("two faults, bound 1", vk.Pick(c, 1, 2), f, g))
			out = append(out, two("two clients, bound 1", 1, []fault{f}, []fault{g}))
		}
	}
	return
}

// C09: what the application submits reaches the panel. The byte stream a
// scripted panel receives is compared with the submitted lists, for all
// sequences of list kinds up to a depth, several submitters, incoming traffic
// and stalls, over all schedules with a bounded number of deviations.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"

	"verif.local/harness/cl"
	"verif.local/harness/ex"
	"verif.local/harness/sim"
	"verif.local/harness/vk"
)

var c *vk.Check

func main() {
	vk.Main("C09", func(k *vk.Check) {
		c = k
		c.Assume("A list is handed over while connected when the send on msgsToPanel happens after the dial was answered and the connection stays up.",
			"Messages are encodable (valid UTF-8) and not nil; texts have no line feed.",
			"The expected ASCII lines are those the converter returns for the list (its correctness is C01 and C02).",
			"Exploration: every statement of connecttopanel.go, every select and every socket operation is a choice point; a write is atomic, as net.TCPConn's is.")
		o := ex.Options{Setup: cl.Warm, Mask: []string{"converterFunctions.go"}}
		ex.Explore(c, "sequences", sequences, o)
		ex.Explore(c, "interleavings", interleavings, o)
	})
}

const ms = time.Millisecond
const sec = time.Second

var kinds = []string{"nil", "repeats", "empty", "empty message", "ping", "ack+command", "texts", "command and texts", "picture", "colour picture", "many", "states", "big", "huge", "two pictures", "thousand"}

// list is submission number n of kind k.
func list(k string, n int) []*rwp.InboundMessage {
	id := uint32(n + 1)
	text := func(i int) *rwp.HWCState {
		return &rwp.HWCState{HWCIDs: []uint32{id}, HWCText: &rwp.HWCText{Title: fmt.Sprintf("T%d", i), Textline1: "x%y\\z", IntegerValue: int32(i)}}
	}
	gfx := func(size int) *rwp.HWCState {
		b := make([]byte, size)
		for i := range b {
			b[i] = byte(i*7 + n)
		}
		return &rwp.HWCState{HWCIDs: []uint32{id}, HWCGfx: &rwp.HWCGfx{W: uint32(8), H: uint32(size), ImageType: rwp.HWCGfx_MONO, ImageData: b}}
	}
	st := func(s ...*rwp.HWCState) *rwp.InboundMessage { return &rwp.InboundMessage{States: s} }
	switch k {
	case "nil":
		return nil
	case "empty":
		return []*rwp.InboundMessage{}
	case "empty message":
		return []*rwp.InboundMessage{{}}
	case "repeats": // equal messages, in the list and in the next of the kind
		var l []*rwp.InboundMessage
		for _, m := range []*rwp.InboundMessage{{Command: &rwp.Command{ClearAll: true}}, {FlowMessage: rwp.InboundMessage_PING}, st(&rwp.HWCState{HWCIDs: []uint32{1}, HWCMode: &rwp.HWCMode{State: 4}}), st(&rwp.HWCState{HWCIDs: []uint32{3, 3}, HWCText: &rwp.HWCText{Title: "same"}})} {
			l = append(l, m, m, m)
		}
		return append(l, l...)
	case "ping":
		return []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_PING}, st(text(0))}
	case "ack+command":
		return []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_ACK}, {FlowMessage: rwp.InboundMessage_NACK}, {Command: &rwp.Command{ClearAll: true, SetHeartBeatTimer: &rwp.HeartBeatTimer{Value: id}}}}
	case "texts":
		return []*rwp.InboundMessage{st(text(1)), st(text(2)), st(text(3))}
	case "command and texts":
		return []*rwp.InboundMessage{{Command: &rwp.Command{SendPanelInfo: true, PanelBrightness: &rwp.Brightness{OLEDs: id, LEDs: id}}, States: []*rwp.HWCState{text(1), text(2)}}}
	case "picture":
		return []*rwp.InboundMessage{st(gfx(256))}
	case "colour picture":
		s := gfx(4096)
		s.HWCGfx.W, s.HWCGfx.H, s.HWCGfx.ImageType = 64, 32, rwp.HWCGfx_RGB16bit
		return []*rwp.InboundMessage{st(s)}
	case "two pictures":
		a, b := gfx(300), gfx(171)
		b.HWCIDs = []uint32{id + 100000}
		return []*rwp.InboundMessage{st(a, b), st(text(1))}
	case "many":
		var l []*rwp.InboundMessage
		for i := 0; i < 60; i++ {
			l = append(l, st(text(i)))
		}
		return l
	case "thousand": // some in messages of their own, some states of one message
		var l []*rwp.InboundMessage
		for i := 0; i < 1100; i++ {
			l = append(l, st(&rwp.HWCState{HWCIDs: []uint32{id + uint32(i)}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(i % 5)}}))
		}
		m := st()
		for i := 0; i < 1100; i++ {
			m.States = append(m.States, &rwp.HWCState{HWCIDs: []uint32{id + uint32(i)}, HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i % 17)}}})
		}
		return append(l, m, st(text(7)))
	case "states":
		return []*rwp.InboundMessage{st(&rwp.HWCState{HWCIDs: []uint32{id, id + 1000}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_ON}, HWCColor: &rwp.HWCColor{ColorRGB: &rwp.ColorRGB{Red: 255}}, HWCExtended: &rwp.HWCExtended{Interpretation: 1, Value: 500}}, text(9))}
	case "big":
		return []*rwp.InboundMessage{st(gfx(100000)), st(text(1))}
	case "huge":
		return []*rwp.InboundMessage{st(text(1)), st(gfx(600000)), st(text(2))}
	}
	var size int
	if _, err := fmt.Sscanf(k, "image of %d", &size); err == nil {
		return []*rwp.InboundMessage{st(gfx(size)), st(text(1))}
	}
	if _, err := fmt.Sscanf(k, "title of %d", &size); err == nil {
		return []*rwp.InboundMessage{st(&rwp.HWCState{HWCIDs: []uint32{id}, HWCText: &rwp.HWCText{Title: strings.Repeat("x", size)}}), st(text(1))}
	}
	if _, err := fmt.Sscanf(k, "list of %d", &size); err == nil {
		l := []*rwp.InboundMessage{}
		for i := 0; i < size; i++ {
			l = append(l, st(&rwp.HWCState{HWCIDs: []uint32{id + uint32(i)}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(i % 5)}}))
		}
		return l
	}
	panic(k)
}

type sub struct {
	Kind string
	At   time.Duration // before the submission, after the previous one
}

type scen struct {
	Mode     string // binary, silent, rdy
	Subs     [][]sub
	Traffic  string // "", events, partial, large, flood
	Slow     time.Duration
	Stall    []time.Duration // panel stops reading at [0], resumes at [1]
	Lost     bool            // an earlier connection was lost
	Buffer   int
	SlowConn time.Duration
}

func (s *scen) input() any {
	return map[string]any{"mode": s.Mode, "submitters": s.Subs, "traffic": s.Traffic, "slow_consumer": s.Slow.String(), "stall": s.Stall, "after_loss": s.Lost, "channel_capacity": s.Buffer, "connect_callback_takes": s.SlowConn.String()}
}

// traffic is what the panel sends, from start on.
func (s *scen) traffic(start time.Duration) (steps []sim.Step, want []*rwp.OutboundMessage) {
	bin := s.Mode == "binary"
	ev := func(id int) []byte {
		m := cl.Event(id, 0)
		want = append(want, m)
		if bin {
			return cl.OutFrame(m)
		}
		return []byte(fmt.Sprintf("HWC#%d=Down\n", id))
	}
	switch s.Traffic {
	case "events":
		for i := 0; i < 5; i++ {
			steps = append(steps, sim.Step{At: start + time.Duration(i)*ms, Data: ev(i + 1)})
		}
	case "partial": // frames that stay unfinished for a while
		for i := 0; i < 3; i++ {
			b := ev(i + 1)
			t := start + time.Duration(i)*3*sec
			steps = append(steps, sim.Step{At: t, Data: b[:3]}, sim.Step{At: t + 900*ms, Data: b[3:6]}, sim.Step{At: t + 1800*ms, Data: b[6:]})
		}
	case "flood":
		for i := 0; i < 40; i++ {
			steps = append(steps, sim.Step{At: start + time.Duration(i)*500*time.Microsecond, Data: ev(i + 1)})
		}
	case "ping":
		for i := 0; i < 4; i++ {
			m := &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}
			want = append(want, m)
			d := []byte("ping\n")
			if bin {
				d = cl.OutFrame(m)
			}
			steps = append(steps, sim.Step{At: start + time.Duration(i)*ms, Data: d})
		}
	}
	return
}

func (s *scen) body(x *ex.X) string {
	as, p := s.attempts()
	return s.play(x, sim.New(x, as...), p, false)
}

// two are two clients of two panels in one process.
func two(group string, bound int, s, t *scen) *ex.Scenario {
	in := func() any { return []any{s.input(), t.input()} }
	return &ex.Scenario{Group: fmt.Sprintf("%s, bound %d", group, bound), Bound: bound, Leaky: true, Input: in, Body: func(x *ex.X) string {
		as, p := s.attempts()
		bs, q := t.attempts()
		n := sim.New(x, as...)
		m := n.Also(cl.OtherAddr, bs...)
		return cl.Beside(func() string { return s.play(x, n, p, true) }, func() string { return t.play(x, m, q, true) })
	}}
}

// plan is what the panel sends on the connection that lasts.
type plan struct {
	traffic []sim.Step
	want    []*rwp.OutboundMessage
}

func (s *scen) attempts() ([]sim.Attempt, plan) {
	start := 5 * ms
	pre := []sim.Step{}
	switch s.Mode {
	case "binary":
		pre = append(pre, sim.Step{At: ms, Data: cl.Ack})
	case "rdy":
		pre = append(pre, sim.Step{At: ms, Data: []byte("RDY\n")})
	case "silent":
		start = 2100 * ms
	}
	tr, want := s.traffic(start)
	if len(s.Stall) == 2 {
		tr = append(tr, sim.Step{At: start + s.Stall[0], Stall: true}, sim.Step{At: start + s.Stall[1], Go: true})
	}
	good := sim.Attempt{Steps: append(pre, tr...)}
	if s.Lost {
		return []sim.Attempt{{Steps: []sim.Step{{At: ms, Data: cl.Ack}, {At: 20 * ms, Drop: true}}}, good}, plan{tr, want}
	}
	return []sim.Attempt{good}, plan{tr, want}
}

func (s *scen) play(x *ex.X, n *sim.Net, p plan, beside bool) string {
	tr, want := p.traffic, p.want
	k := 0
	if s.Lost {
		k = 1
	}
	r := cl.Start(x, n, cl.Opts{SlowConsumer: s.Slow, Buffer: s.Buffer, SlowConnect: s.SlowConn, Beside: beside})
	// The submitters wait for the connection.
	for i := 0; n.Conn(k) == nil; i++ {
		if i > 5000 {
			return "connection: no connection was made"
		}
		time.Sleep(ms)
	}
	type done struct{ sub, i int }
	doneCh := make(chan done, 1000)
	lists := make([][][]*rwp.InboundMessage, len(s.Subs))
	total := 0
	num := 0
	limit := time.Duration(0)
	for g, q := range s.Subs {
		var d time.Duration
		for _, u := range q {
			lists[g] = append(lists[g], list(u.Kind, num))
			num++
			d += u.At
			total++
		}
		limit = max(limit, d)
	}
	limit += 12*sec + s.SlowConn
	for g, q := range s.Subs {
		go func() {
			for i, u := range q {
				if u.At > 0 {
					time.Sleep(u.At)
				}
				r.To <- lists[g][i]
				doneCh <- done{g, i}
			}
		}()
	}
	deadline := time.NewTimer(limit)
	for i := 0; i < total; i++ {
		select {
		case <-doneCh:
		case <-deadline.C:
			r.Stop(30 * sec)
			return fmt.Sprintf("stuck: only %d of %d lists were taken within %v", i, total, limit)
		}
	}
	deadline.Stop()
	end := 5*sec + time.Duration(len(want))*s.Slow
	var last time.Duration
	for _, t := range tr {
		last = max(last, t.At)
	}
	end += last
	time.Sleep(end)
	got := n.Conn(k).Bytes()
	// The lists are compared as submitted: the client must not have changed them.
	v := s.judge(got)
	if v == "" {
		v = cl.SameOut(r.Messages(), want)
	}
	if v == "" {
		if evs := r.Events(); len(evs) != 2*k+1 {
			v = "connection: the connection was not kept: " + cl.EvString(evs)
		}
	}
	if v == "" {
		if b := n.Conn(k).Bytes(); len(b) != len(got) {
			v = "late: bytes were written more than 5 s after the submission"
		}
	}
	r.Stop(30 * sec)
	return v
}

// judge compares what the panel received with an order of the submissions in
// which every submitter's lists keep their order.
func (s *scen) judge(got []byte) string {
	rest, ok := bytes.CutPrefix(got, cl.Ping)
	if !ok {
		return fmt.Sprintf("probe: the connection began with % x", got[:min(len(got), 12)])
	}
	if s.Mode != "binary" {
		if rest, ok = bytes.CutPrefix(rest, []byte("\n")); !ok {
			return fmt.Sprintf("flush: no line feed after the probe but %q", rest[:min(len(rest), 12)])
		}
	}
	num := 0
	var queues [][][]*rwp.InboundMessage
	for _, q := range s.Subs {
		var l [][]*rwp.InboundMessage
		for _, u := range q {
			l = append(l, list(u.Kind, num))
			num++
		}
		queues = append(queues, l)
	}
	// Depth-first over the positions in the submitters' queues: lists without
	// content of their own fit in several places.
	idx := make([]int, len(queues))
	dead := map[string]bool{}
	far, left := -1, 0
	var walk func(off, n int) bool
	walk = func(off, n int) bool {
		if n == num {
			if off > far {
				far, left = off, 0
			}
			return off == len(rest)
		}
		key := fmt.Sprint(idx)
		if dead[key] {
			return false
		}
		if off > far {
			far, left = off, num-n
		}
		for g := range queues {
			if idx[g] == len(queues[g]) {
				continue
			}
			k := s.match(rest[off:], queues[g][idx[g]])
			if k < 0 {
				continue
			}
			idx[g]++
			ok := walk(off+k, n+1)
			idx[g]--
			if ok {
				return true
			}
		}
		dead[key] = true
		return false
	}
	if walk(0, 0) {
		return ""
	}
	if left == 0 {
		return fmt.Sprintf("stream: %d bytes too many: %q", len(rest)-far, rest[far:min(len(rest), far+60)])
	}
	return fmt.Sprintf("stream: at byte %d of %d the panel received %q, which is not the beginning of any of the next lists (%d lists left)", far, len(rest), rest[far:min(len(rest), far+60)], left)
}

// match returns the number of bytes that encode the list at the beginning of b, or -1.
func (s *scen) match(b []byte, l []*rwp.InboundMessage) int {
	n := 0
	if s.Mode == "binary" {
		for _, m := range l {
			if len(b) < 4 {
				return -1
			}
			k := int(binary.LittleEndian.Uint32(b))
			if k < 0 || k > len(b)-4 || k > 2*proto.Size(m)+16 {
				return -1
			}
			g := &rwp.InboundMessage{}
			if proto.Unmarshal(b[4:4+k], g) != nil || !proto.Equal(g, m) {
				return -1
			}
			b = b[4+k:]
			n += 4 + k
		}
		return n
	}
	for _, line := range lines(l) {
		if len(b) < len(line)+1 || string(b[:len(line)]) != line || b[len(line)] != '\n' {
			return -1
		}
		b = b[len(line)+1:]
		n += len(line) + 1
	}
	return n
}

func lines(l []*rwp.InboundMessage) []string {
	return rawpanel.InboundMessagesToRawPanelASCIIstrings(l)
}

func (s *scen) scenario(group string, bound int) *ex.Scenario {
	return &ex.Scenario{Group: fmt.Sprintf("%s, bound %d", group, bound), Bound: bound, Leaky: true, Input: s.input, Body: s.body}
}

var modes = []string{"binary", "rdy", "silent"}

func sequences() (out []*ex.Scenario) {
	add := func(g string, s *scen) { out = append(out, s.scenario(g, 0)) }
	seq := func(gap time.Duration, ks ...string) (q []sub) {
		for i, k := range ks {
			g := gap
			if i == 0 {
				g = 0
			}
			q = append(q, sub{k, g})
		}
		return
	}
	small := kinds[:12]
	for _, m := range modes {
		// all sequences of one submitter
		for _, a := range kinds {
			add("one list", &scen{Mode: m, Subs: [][]sub{seq(0, a)}})
			for _, b := range kinds {
				for _, gap := range []time.Duration{0, 5 * sec} {
					for _, tr := range []string{"", "events", "partial", "ping"} {
						add("two lists", &scen{Mode: m, Subs: [][]sub{seq(gap, a, b)}, Traffic: tr})
					}
				}
				// one list each of two submitters
				add("two submitters", &scen{Mode: m, Subs: [][]sub{seq(0, a), seq(0, b)}})
				add("two submitters, later", &scen{Mode: m, Subs: [][]sub{{{a, 3 * sec}}, {{b, 3 * sec}}}, Traffic: "partial"})
				add("after a loss", &scen{Mode: m, Subs: [][]sub{seq(ms, a, b)}, Lost: true})
				add("buffered", &scen{Mode: m, Subs: [][]sub{seq(0, a, b, a)}, Buffer: 10})
				add("stalled panel", &scen{Mode: m, Subs: [][]sub{{{a, 20 * ms}, {b, 10 * ms}}}, Stall: []time.Duration{10 * ms, 4 * sec}, Traffic: "partial"})
				add("slow application", &scen{Mode: m, Subs: [][]sub{seq(10*ms, a, b)}, Slow: 3 * sec, Traffic: "events"})
			}
		}
		for _, a := range small {
			for _, b := range small {
				for _, d := range small {
					add("three lists", &scen{Mode: m, Subs: [][]sub{seq(0, a, b, d)}, Traffic: "events"})
					add("three submitters", &scen{Mode: m, Subs: [][]sub{seq(0, a, d), seq(0, b), seq(0, d)}, Traffic: "flood"})
					if c.Thorough() {
						add("three lists", &scen{Mode: m, Subs: [][]sub{seq(1500*ms, a, b, d)}, Traffic: "partial"})
						add("three submitters", &scen{Mode: m, Subs: [][]sub{seq(ms, a, d, b), seq(ms, b, d), seq(2*ms, d, a)}, Traffic: "flood", Slow: ms})
						for _, e := range small {
							add("four lists", &scen{Mode: m, Subs: [][]sub{seq(0, a, b, d, e)}, Traffic: "events"})
						}
					}
				}
			}
		}
		// sizes
		var ks []string
		for n := 1; n < 300; n++ {
			ks = append(ks, fmt.Sprintf("title of %d", n))
		}
		for p := 512; p <= 1<<22; p *= 2 {
			for _, d := range []int{-40, -1, 0, 1} {
				if p <= 1<<16 {
					ks = append(ks, fmt.Sprintf("title of %d", p+d), fmt.Sprintf("list of %d", min(p+d, 5000+d)))
				}
				if d == 0 || p <= 1<<14 {
					ks = append(ks, fmt.Sprintf("image of %d", p+d))
				}
			}
		}
		ks = append(ks, "image of 1000001", "image of 5000000", "title of 499990", "title of 500000", "title of 1100000")
		for i, k := range ks {
			add("sizes", &scen{Mode: m, Subs: [][]sub{{{k, 0}, {"texts", 0}}}, Traffic: []string{"", "events", "partial"}[i%3]})
		}
		// bursts
		var burst []sub
		for i := 0; i < 150; i++ {
			burst = append(burst, sub{small[i%len(small)], 0})
		}
		for _, tr := range []string{"", "flood", "partial"} {
			add("bursts", &scen{Mode: m, Subs: [][]sub{burst}, Traffic: tr})
			add("bursts", &scen{Mode: m, Subs: [][]sub{burst, burst[3:], burst[5:]}, Traffic: tr})
			add("bursts", &scen{Mode: m, Subs: [][]sub{burst, burst[3:], burst[5:]}, Traffic: tr, Buffer: 20, Slow: 10 * ms})
		}
		for i := 150; i < 2500; i++ {
			burst = append(burst, sub{[]string{"ping", "ack+command", "texts", "repeats", "empty", "states"}[i%6], 0})
		}
		for _, gap := range []time.Duration{0, ms, 3 * sec} {
			for i := range burst {
				burst[i].At = gap
			}
			add("long histories", &scen{Mode: m, Subs: [][]sub{append([]sub{}, burst...)}, Traffic: "events"})
		}
		// a stall that begins inside every submission, of several lengths
		for _, a := range kinds {
			for _, at := range []time.Duration{5 * ms, 15 * ms, 25 * ms} {
				for _, d := range []time.Duration{ms, 1900 * ms, 2100 * ms, 7 * sec} {
					for _, tr := range []string{"", "events", "partial"} {
						add("stalled panel", &scen{Mode: m, Subs: [][]sub{{{a, 10 * ms}, {"texts", 10 * ms}, {a, 10 * ms}}}, Stall: []time.Duration{at, at + d}, Traffic: tr})
					}
				}
			}
		}
		// while the connect callback runs
		for _, a := range small {
			add("slow connect callback", &scen{Mode: m, Subs: [][]sub{seq(100*ms, a, "texts", a)}, SlowConn: 3 * sec, Traffic: "events"})
		}
	}
	return
}

func interleavings() (out []*ex.Scenario) {
	// two clients beside each other
	var ps []*scen
	for _, m := range modes[:2] {
		for i, k := range []string{"texts", "ack+command", "picture", "states", "ping"} {
			ps = append(ps, &scen{Mode: m, Subs: [][]sub{{{k, 0}, {[]string{"ping", "states"}[i%2], 0}}}, Traffic: []string{"", "ping"}[i%2]})
		}
	}
	for i := range ps {
		for j := i; j < len(ps); j++ {
			out = append(out, two("schedules, two clients", 1, ps[i], ps[j]))
		}
	}
	for _, m := range modes {
		for i, subs := range [][][]sub{
			{{{"texts", 0}, {"ping", 0}}},
			{{{"texts", 0}}, {{"ack+command", 0}}},
			{{{"picture", 0}, {"texts", 0}}, {{"ping", 0}}},
			{{{"empty", 0}, {"ping", 0}, {"empty message", 0}}},
			{{{"ping", 0}}, {{"ack+command", 0}}, {{"states", 0}}},
			{{{"command and texts", 5 * ms}, {"nil", 0}, {"texts", ms}}},
		} {
			for _, tr := range []string{"", "events", "ping"} {
				b := 1
				if tr == "events" && i < 3 || c.Thorough() {
					b = 2
				}
				if c.Thorough() && i == 1 && tr == "events" {
					b = 3
				}
				out = append(out, (&scen{Mode: m, Subs: subs, Traffic: tr}).scenario("schedules", b))
			}
			out = append(out, (&scen{Mode: m, Subs: subs, Traffic: "partial"}).scenario("schedules, unfinished frames", 1))
			out = append(out, (&scen{Mode: m, Subs: subs, Lost: true, Traffic: "events"}).scenario("schedules, after a loss", 1))
			out = append(out, (&scen{Mode: m, Subs: subs, Buffer: 3, Traffic: "events", Slow: ms}).scenario("schedules, buffered", 1))
			out = append(out, (&scen{Mode: m, Subs: subs, Stall: []time.Duration{ms, 300 * ms}, Traffic: "events"}).scenario("schedules, stalled panel", 1))
		}
	}
	return
}

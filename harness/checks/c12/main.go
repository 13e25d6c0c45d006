// C12: protocol detection. Every reply class, delay, segmentation and following
// close, at both entry points, over all schedules with a bounded number of
// deviations.
package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"

	"verif.local/harness/cl"
	"verif.local/harness/ex"
	"verif.local/harness/sim"
	"verif.local/harness/vk"
)

var c *vk.Check

func main() {
	vk.Main("C12", func(k *vk.Check) {
		c = k
		c.Assume("The probe window is 2 s from the write of the probe; replies completed at exactly 2 s are not judged.",
			"A reply is one frame of at most 996 bytes of payload (not empty), or text; text other than the ready word and map lines is judged for the reconnecting client only.",
			"Replies that end in the middle of a frame, that contain more than one frame, and connections closed without any reply are judged for the probe only.",
			"The error message is one at the beginning of the reply, up to the end of its line; a trailing carriage return may remain.",
			"Exploration: every statement of connecttopanel.go and of AutoDetectIfPanelEncodingIsBinary, every select and every socket operation is a choice point; the network is simulated, at most one segment per read.")
		o := ex.Options{Setup: cl.Warm, Mask: []string{"converterFunctions.go"}}
		ex.Explore(c, "replies", replies, o)
		ex.Explore(c, "connections in succession", successions, o)
		ex.Explore(c, "interleavings", interleavings, o)
	})
}

const ms = time.Millisecond
const sec = time.Second

type class int

const (
	ack    class = iota // well-formed acknowledge frame
	frame               // other well-formed frame
	silent              // nothing within the window
	ready               // RDY or a map line
	text                // other text
	open                // only the probe is judged
)

var classNames = []string{"acknowledge frame", "other frame", "silence", "ready word or map line", "other text", "not judged"}

type reply struct {
	Class class
	Data  []byte
	Err   string // error message in it
	Cuts  []int  // segment ends before the end
	Gap   time.Duration
	Delay time.Duration
	End   string // "", fin, rst
	After time.Duration
}

func (r reply) String() string {
	s := fmt.Sprintf("%s %.60q after %v", classNames[r.Class], r.Data, r.Delay)
	if len(r.Cuts) > 0 {
		s += fmt.Sprintf(", cut at %v with pauses of %v", r.Cuts, r.Gap)
	}
	if r.End != "" {
		s += fmt.Sprintf(", then %s %v later", r.End, r.After)
	}
	return s
}

// steps are the panel's actions; done is the time of the last byte.
func (r reply) steps() (st []sim.Step, done time.Duration) {
	at := r.Delay
	last := 0
	if len(r.Data) > 0 {
		for _, k := range append(append([]int{}, r.Cuts...), len(r.Data)) {
			if k <= last {
				continue
			}
			st = append(st, sim.Step{At: at, Data: r.Data[last:k]})
			done = at
			at += r.Gap
			last = k
		}
	}
	if r.End != "" {
		st = append(st, sim.Step{At: max(done+r.After, 1000), Drop: r.End == "fin", Reset: r.End == "rst"})
	}
	return
}

// outcome is what must come of it: 1 binary, 0 ASCII, -1 not judged.
func (r reply) outcome(client bool) int {
	_, done := r.steps()
	late := len(r.Data) > 0 && r.Delay > 2*sec // the window is over before the first byte
	if len(r.Data) > 0 && !late && done >= 2*sec {
		return -1
	}
	cl := r.Class
	if late {
		cl = silent
	}
	switch cl {
	case ack, frame:
		return 1
	case silent:
		if r.End != "" && (len(r.Data) == 0 && r.After <= 2*sec || late && r.Delay+r.After <= 2*sec) {
			return -1
		}
		return 0
	case ready:
		return 0
	case text:
		if client {
			return 0
		}
	}
	return -1
}

type scen struct {
	Client  bool
	Replies []reply // one per connection
	Submit  bool
	Event   bool // the panel sends an event later
}

func (s *scen) input() any {
	var rs []string
	for _, r := range s.Replies {
		rs = append(rs, r.String())
	}
	e := "AutoDetectIfPanelEncodingIsBinary"
	if s.Client {
		e = "ConnectToPanel"
	}
	return map[string]any{"entry": e, "replies": rs, "submitting": s.Submit, "event_afterwards": s.Event}
}

func (s *scen) scenario(group string, bound int) *ex.Scenario {
	f := s.client
	if !s.Client {
		f = s.detector
	}
	return &ex.Scenario{Group: fmt.Sprintf("%s, bound %d", group, bound), Bound: bound, Leaky: true, Input: s.input, Body: f}
}

// written judges the bytes of the negotiation and returns the rest.
func written(got []byte, want int, r reply) (rest []byte, v string) {
	rest, ok := bytes.CutPrefix(got, cl.Ping)
	if !ok {
		return nil, fmt.Sprintf("probe: the connection began with % x", got[:min(len(got), 12)])
	}
	if want < 0 || r.End != "" {
		// Writes to a closed connection get lost.
		return nil, ""
	}
	if want == 0 {
		if rest, ok = bytes.CutPrefix(rest, []byte("\n")); !ok {
			return nil, fmt.Sprintf("flush: no line feed after the probe: %q", rest[:min(len(rest), 12)])
		}
	}
	return rest, ""
}

func (s *scen) detector(x *ex.X) string {
	return s.detect(x, sim.New(x, sim.Attempt{}))
}

// detect runs the detector on one connection after the other.
func (s *scen) detect(x *ex.X, n *sim.Net) string {
	for _, r := range s.Replies {
		if v := detectOne(x, n, r); v != "" {
			return v
		}
	}
	return ""
}

func detectOne(x *ex.X, n *sim.Net, r reply) string {
	st, _ := r.steps()
	conn := sim.NewConn(x, 0)
	n.Play(conn, st)
	start := x.T()
	type res struct {
		bin bool
		at  time.Duration
	}
	done := make(chan res, 1)
	go func() {
		b := rawpanel.AutoDetectIfPanelEncodingIsBinary(conn, "10.0.0.2:9923")
		done <- res{b, x.T()}
	}()
	var got res
	t := time.NewTimer(10 * sec)
	select {
	case got = <-done:
	case <-t.C:
		return "hang: the detector did not return within 10 s"
	}
	t.Stop()
	x.Log("binary=%v", got.bin)
	want := r.outcome(false)
	if want >= 0 && got.bin != (want == 1) {
		return fmt.Sprintf("class: the detector returned binary=%v for %v", got.bin, r)
	}
	if d := got.at - start; d > 2*sec+100*ms {
		return fmt.Sprintf("window: the detector took %v", d)
	}
	time.Sleep(5 * sec)
	if want < 0 && r.Class == text && r.End == "" {
		// Not judged which, but it has to be consistent.
		want = 0
		if got.bin {
			want = 1
		}
	}
	rest, v := written(conn.Bytes(), want, r)
	if v == "" && len(rest) > 0 {
		v = fmt.Sprintf("flush: additional bytes after the negotiation: %q", rest)
	}
	return v
}

func (s *scen) client(x *ex.X) string {
	return s.play(x, sim.New(x, s.attempts()...), false)
}

// two run beside each other in one process, at two panels.
func two(group string, bound int, s, t *scen) *ex.Scenario {
	in := func() any { return []any{s.input(), t.input()} }
	return &ex.Scenario{Group: fmt.Sprintf("%s, bound %d", group, bound), Bound: bound, Leaky: true, Input: in, Body: func(x *ex.X) string {
		n := sim.New(x, s.attempts()...)
		m := n.Also(cl.OtherAddr, t.attempts()...)
		run := func(s *scen, n *sim.Net) func() string {
			return func() string {
				if s.Client {
					return s.play(x, n, true)
				}
				return s.detect(x, n)
			}
		}
		return cl.Beside(run(s, n), run(t, m))
	}}
}

func (s *scen) attempts() (as []sim.Attempt) {
	if !s.Client {
		return []sim.Attempt{{Refuse: true}}
	}
	for i, r := range s.Replies {
		st, done := r.steps()
		if r.Delay > 2*sec {
			done = 2 * sec
		}
		if i+1 < len(s.Replies) && r.End == "" {
			st = append(st, sim.Step{At: max(done, 2*sec) + sec, Drop: true})
		} else if s.Event && r.End == "" {
			d := cl.OutFrame(cl.Event(7, 0))
			if r.outcome(true) == 0 {
				d = []byte("\nHWC#7=Down\n")
			}
			t := done + 5*ms
			if len(r.Data) == 0 || r.Delay > 2*sec {
				t = max(2*sec, r.Delay) + 5*ms
			}
			st = append(st, sim.Step{At: t, Data: d})
		}
		as = append(as, sim.Attempt{Steps: st})
	}
	return append(as, sim.Attempt{Refuse: true})
}

func (s *scen) play(x *ex.X, n *sim.Net, beside bool) string {
	r := cl.Start(x, n, cl.Opts{Beside: beside})
	sub := []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_ACK}, {Command: &rwp.Command{ClearAll: true}}}
	if s.Submit {
		go func() {
			t := time.NewTimer(8 * sec)
			select {
			case r.To <- sub:
			case <-t.C:
			}
			t.Stop()
		}()
	}
	end := 7 * sec
	for _, q := range s.Replies {
		_, d := q.steps()
		end += d + q.After
		if len(s.Replies) > 1 {
			end += 6 * sec
		}
	}
	time.Sleep(end)
	evs := r.Events()
	v := func() string {
		for i, q := range s.Replies {
			if i >= len(n.Conns) {
				return fmt.Sprintf("connection: connection %d was not made: %s", i, cl.EvString(evs))
			}
			want := q.outcome(true)
			rest, w := written(n.Conns[i].Bytes(), want, q)
			if w != "" {
				return fmt.Sprintf("%s (%v)", w, q)
			}
			k := -1
			for j, e := range evs {
				if e.Kind == "connect" && e.Conn == any(n.Conns[i]) {
					k = j
				}
			}
			if k < 0 {
				return fmt.Sprintf("connect: no connect callback within %v: %v", end, q)
			}
			e := evs[k]
			if want < 0 {
				continue
			}
			if e.Binary != (want == 1) {
				return fmt.Sprintf("class: connect reported binary=%v for %v", e.Binary, q)
			}
			_, done := q.steps()
			if len(q.Data) > 0 && q.Delay > 2*sec {
				done = 0
			}
			errw := q.Err
			if q.Delay > 2*sec {
				errw = ""
			}
			if strings.TrimRight(e.Err, "\r") != errw {
				return fmt.Sprintf("error: connect got the error message %q for %v", e.Err, q)
			}
			if d := e.T - n.Conns[i].OpenedAt; d > 2*sec+100*ms || d < done {
				return fmt.Sprintf("window: connect was called %v after the dial: %v", d, q)
			}
			if q.End != "" {
				continue
			}
			// Nothing but the submission follows.
			if len(rest) > 0 {
				var enc []byte
				if want == 1 {
					for _, m := range sub {
						b, _ := proto.Marshal(m)
						enc = append(enc, cl.Frame(b)...)
					}
				} else {
					for _, l := range rawpanel.InboundMessagesToRawPanelASCIIstrings(sub) {
						enc = append(enc, l+"\n"...)
					}
				}
				if !s.Submit || i > 0 || !bytes.Equal(rest, enc) {
					return fmt.Sprintf("flush: additional bytes after the negotiation: %q (%v)", rest, q)
				}
			} else if s.Submit && i == 0 {
				return "submission: the submission was not written"
			}
			if s.Event && i == len(s.Replies)-1 {
				ok := false
				for _, g := range r.Messages() {
					ok = ok || proto.Equal(g.M, cl.Event(7, 0))
				}
				if !ok {
					return fmt.Sprintf("stream: the event sent after the negotiation was not received: %v", q)
				}
			}
		}
		return ""
	}()
	r.Stop(30 * sec)
	return v
}

func marshal(m *rwp.OutboundMessage) []byte { return cl.OutFrame(m) }

// corpus are the replies without timing.
func corpus() (out []reply) {
	add := func(k class, d string) { out = append(out, reply{Class: k, Data: []byte(d)}) }
	addm := func(k class, m *rwp.OutboundMessage) { out = append(out, reply{Class: k, Data: marshal(m)}) }
	addm(ack, &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK})
	addm(frame, &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING})
	addm(ready, nil)
	out = out[:2]
	out = append(out, reply{Class: silent})
	add(ready, "RDY\n")
	add(ready, "map=1:1\n")
	add(ready, "RDY\r\n")
	out = append(out, reply{Class: text, Data: []byte("ErrorMsg=No access\n"), Err: "No access"})
	add(text, "hello\n")
	// further forms
	addm(ack, &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK, PanelInfo: &rwp.PanelInfo{Model: "X"}})
	addm(ack, &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK, PanelInfo: &rwp.PanelInfo{Model: strings.Repeat("m", 900)}})
	unknown := protowire.AppendTag([]byte{8, 2}, 999, protowire.VarintType)
	unknown = protowire.AppendVarint(unknown, 5)
	out = append(out, reply{Class: ack, Data: cl.Frame(unknown)})
	out = append(out, reply{Class: ack, Data: cl.Frame([]byte{8, 1, 8, 2})})
	for _, f := range []rwp.OutboundMessage_FlowMsg{3, 4, 5, 6, 7, 77} {
		addm(frame, &rwp.OutboundMessage{FlowMessage: f})
	}
	addm(frame, cl.Event(3, 0))
	addm(frame, &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: "M", Serial: "S"}})
	addm(frame, &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: strings.Repeat("j", 980)}})
	for _, s := range []string{"RDY", "RDY\nRDY\n", "RDY\nmap=1:1\n", "RDY\r\nmap=1:1\r\n", "map=0:0\r\n", "map=12:13", "map=1:1\nmap=2:2\nHWC#1=Down\n", "map=\n"} {
		add(ready, s)
	}
	add(ready, "map=1:1\n"+strings.Repeat("map=2:2\n", 200))
	for _, e := range []string{"x", "", "a=b", "A|B;C", "Nær", strings.Repeat("e", 300), "ErrorMsg=twice", " blanks "} {
		for _, eol := range []string{"\n", "\r\n", "", "\nRDY\n", "\nmap=1:1\nErrorMsg=second\n"} {
			out = append(out, reply{Class: text, Data: []byte("ErrorMsg=" + e + eol), Err: e})
		}
	}
	for _, s := range []string{"\n", "x", "ok\n", "nack\n", "BSY\n", "list\n", "_model=RCP\n", "ErrorMsg", "errormsg=x\n", "rdy\n", "Rdy\n", "mapx\n", "HWC#1=Down\n", "ack\n", "<html>\n", "SSH-2.0-x\r\n", "ma", "no\nErrorMsg", " RDY\n"} {
		add(text, s)
	}
	add(text, strings.Repeat("long line ", 99)+"\n")
	add(text, strings.Repeat("long line ", 300)+"\n")
	for ch := 0x20; ch < 0x7f; ch++ {
		add(text, string(rune(ch)))
		add(text, string(rune(ch))+"\n")
		add(text, "a"+string(rune(ch))+"b\n")
	}
	for ch := 'A'; ch <= 'z'; ch++ {
		for d := '='; d <= 'z'; d++ {
			add(text, string(ch)+string(d)+"\n")
		}
	}
	return
}

func replies() (out []*ex.Scenario) {
	th := c.Thorough()
	add := func(g string, r reply, evs ...bool) {
		for _, client := range []bool{false, true} {
			ev := r.End == "" && r.outcome(true) >= 0
			if bytes.HasSuffix(r.Data, []byte("\n")) || len(r.Data) == 0 || r.outcome(true) == 1 {
			} else {
				ev = false // the unfinished line and the event would be one line
			}
			if r.outcome(true) == 0 && len(r.Data) >= 1000 {
				ev = false
			}
			out = append(out, (&scen{Client: client, Replies: []reply{r}, Event: ev, Submit: len(out)%4 == 1}).scenario(g, 0))
		}
	}
	co := corpus()
	delays := []time.Duration{0, 1, ms, 20 * ms, 300 * ms, sec, 1500 * ms, 1900 * ms, 1990 * ms, 1999 * ms, 2*sec - 1000, 2*sec + 1000, 2001 * ms, 2100 * ms, 3 * sec, 4500 * ms}
	for i, r := range co {
		ds := delays
		if i >= 120 && !th {
			ds = []time.Duration{ms, 1999 * ms}
		}
		for _, d := range ds {
			r.Delay = d
			add("replies and delays", r)
			if i >= 120 && !th {
				continue
			}
			for _, end := range []string{"fin", "rst"} {
				for _, a := range []time.Duration{0, ms, 700 * ms} {
					r2 := r
					r2.End, r2.After = end, a
					add("replies, then closed", r2)
				}
			}
		}
	}
	// delays on a fine grid
	step := vk.Pick(c, 25*ms, 2*ms)
	for d := time.Duration(0); d < 2300*ms; d += step {
		for _, r := range co[:8] {
			if d == 2*sec {
				continue
			}
			r.Delay = d
			add("every delay", r)
		}
	}
	// segmented replies
	segs := []reply{co[0], {Class: frame, Data: marshal(cl.Event(3, 0))}, {Class: ready, Data: []byte("RDY\n")}, {Class: ready, Data: []byte("RDY\r\n")}, {Class: ready, Data: []byte("map=1:1\n")}}
	for _, r := range segs {
		n := len(r.Data)
		if r.Class == ready && n > 4 {
			n = 5
		}
		for m := 1; m < 1<<(n-1); m++ {
			r.Cuts = nil
			for i := 1; i < n; i++ {
				if m>>(i-1)&1 == 1 {
					r.Cuts = append(r.Cuts, i)
				}
			}
			if len(r.Data) > 9 && len(r.Cuts) > 3 {
				continue
			}
			for _, g := range []time.Duration{1, ms, 1900 * ms / time.Duration(len(r.Cuts))} {
				for _, d := range []time.Duration{0, 10 * ms} {
					r.Delay, r.Gap = d, g
					for _, client := range []bool{false, true} {
						if r.Class != ack && r.Class != frame && client {
							// The text is recognised, the rest of the line is not judged.
							out = append(out, (&scen{Client: client, Replies: []reply{{Class: open, Data: r.Data, Cuts: r.Cuts, Gap: r.Gap, Delay: d}}}).scenario("segmented replies", 0))
							continue
						}
						out = append(out, (&scen{Client: client, Replies: []reply{r}, Event: client}).scenario("segmented replies", 0))
					}
				}
			}
		}
	}
	return
}

func successions() (out []*ex.Scenario) {
	co := corpus()[:12]
	co = append(co, reply{Class: ack, Data: cl.Ack, Delay: 1999 * ms}, reply{Class: ack, Data: cl.Ack, Delay: 2500 * ms},
		reply{Class: text, Data: []byte("ErrorMsg=Busy\n"), Err: "Busy", End: "fin", After: ms}, reply{Class: ack, Data: cl.Ack, End: "rst", After: ms})
	for _, a := range co {
		for _, b := range co {
			out = append(out, (&scen{Client: true, Replies: []reply{a, b}, Event: len(b.Data) < 900}).scenario("two connections", 0))
			if c.Thorough() {
				for _, d := range co {
					out = append(out, (&scen{Client: true, Replies: []reply{a, b, d}}).scenario("three connections", 0))
				}
			}
			out = append(out, (&scen{Replies: []reply{a, b}}).scenario("two detections", 0))
		}
	}
	// long successions: every kind follows every other
	for k := range co {
		var rs []reply
		for i := range 2 * len(co) {
			rs = append(rs, co[i*(2*k+1)%len(co)])
		}
		out = append(out, (&scen{Client: true, Replies: rs}).scenario("long successions", 0), (&scen{Replies: rs}).scenario("long successions of detections", 0))
	}
	var many []reply
	for i, r := range corpus() {
		if i%4 == 0 {
			r.Delay = ms
			many = append(many, r)
		}
	}
	for i := 0; i+40 <= len(many); i += 40 {
		out = append(out, (&scen{Client: true, Replies: many[i : i+40]}).scenario("long successions", 0))
	}
	// two beside each other
	co = append(co, reply{Class: ack, Data: cl.Ack, Cuts: []int{2}, Gap: 50 * ms}, reply{Class: ack, Data: cl.Ack, Delay: 20 * ms, Cuts: []int{4}, Gap: 5 * ms},
		reply{Class: ready, Data: []byte("RDY\n"), Delay: 22 * ms}, reply{Class: text, Data: []byte("ErrorMsg=Later\n"), Err: "Later", Delay: 23 * ms})
	for _, a := range co {
		for _, b := range co {
			for m := range 3 {
				s, t := &scen{Client: m < 2, Replies: []reply{a}, Event: len(a.Data) < 900}, &scen{Client: m < 1, Replies: []reply{b}, Event: len(b.Data) < 900}
				out = append(out, two("two beside each other", 0, s, t))
			}
		}
	}
	return
}

func interleavings() (out []*ex.Scenario) {
	co := corpus()[:8]
	for _, r := range co {
		for _, d := range []time.Duration{0, ms, 1999 * ms} {
			r.Delay = d
			if len(r.Data) == 0 && d > 0 {
				continue
			}
			for _, client := range []bool{false, true} {
				b := 2
				if !client || c.Thorough() {
					b = 3
				}
				out = append(out, (&scen{Client: client, Replies: []reply{r}}).scenario("schedules", b))
				if client {
					out = append(out, (&scen{Client: client, Replies: []reply{r}, Submit: true, Event: true}).scenario("schedules, submitting", 2))
				}
			}
		}
	}
	for i, a := range co {
		a.Delay = ms
		for _, b := range co[i:] {
			b.Delay = ms
			for m := range 3 {
				b1 := 1
				if i == 0 && m > 0 || c.Thorough() {
					b1 = 2
				}
				out = append(out, two("schedules, beside each other", b1, &scen{Client: m < 2, Replies: []reply{a}}, &scen{Client: m < 1, Replies: []reply{b}}))
			}
		}
	}
	seg := co[0]
	seg.Cuts, seg.Gap = []int{1, 4}, 500*ms
	out = append(out, (&scen{Client: true, Replies: []reply{seg}, Event: true}).scenario("schedules, segmented", 2))
	out = append(out, (&scen{Client: false, Replies: []reply{seg}}).scenario("schedules, segmented", 3))
	return
}

// C11: connection lifecycle. The client runs against scripted panels that
// accept, refuse, stay silent and drop the connection at every byte offset; the
// context is cancelled at every instant of a grid and around every event; all
// schedules with a bounded number of deviations are executed and the callback
// sequence, deliveries, redials, return, wait group and sockets are judged.
package main

import (
	"fmt"
	"sort"
	"time"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"

	"verif.local/harness/cl"
	"verif.local/harness/ex"
	"verif.local/harness/sim"
	"verif.local/harness/vk"
)

var c *vk.Check

func main() {
	vk.Main("C11", func(k *vk.Check) {
		c = k
		c.Assume("The application keeps reading msgsFromPanel and its callbacks return.",
			"A dial that does not answer is given up by the operating system; its remaining time is added to the bound on the return after cancellation.",
			"A cancellation within 10 ms of the end of a connection may or may not be reported for that connection; one inside a retry pause may lead to one more connection that is then reported as cancelled.",
			"Frames that have arrived at least 10 ms before the cancellation, or at any time before the panel's drop, have been received.",
			"Exploration: every statement of connecttopanel.go, every select and every socket operation is a choice point; the network is simulated.")
		o := ex.Options{Setup: cl.Warm, Mask: []string{"converterFunctions.go"}}
		ex.Explore(c, "starvation", starvation, o)
		ex.Explore(c, "cycles and submissions", cycles, o)
		ex.Explore(c, "cancellation", cancellation, o)
		ex.Explore(c, "loss", loss, o)
		ex.Explore(c, "two clients", beside, o)
	})
}

const ms = time.Millisecond
const sec = time.Second

// --- panels -------------------------------------------------------------------

// panel is how one dial is answered.
type panel struct {
	Kind   string // binary, silent, rdy, error, refuse
	Delay  time.Duration
	Gaps   time.Duration // between segments
	Split  int           // segment length (0: one message per segment)
	Drop   string        // "", fin, rst
	Offset int           // of the drop in reply+stream; -1: at the end
	Later  time.Duration // the drop comes this long after the last byte
	Stall  bool          // the panel stops reading after the negotiation
	DropAt time.Duration // silence, then the drop at this time (0: by offset)
	Msgs   int
}

func (p panel) String() string {
	s := p.Kind
	if p.Delay > 0 {
		s += fmt.Sprintf(" answers the dial after %v", p.Delay)
	}
	if p.Kind != "refuse" {
		s += fmt.Sprintf(", %d messages", p.Msgs)
		if p.Gaps > 0 {
			s += fmt.Sprintf(" %v apart", p.Gaps)
		}
		if p.Split > 0 {
			s += fmt.Sprintf(" in segments of %d bytes", p.Split)
		}
		if p.Stall {
			s += ", does not read"
		}
		if p.Drop != "" {
			if p.DropAt > 0 {
				s += fmt.Sprintf(", %s at %v", p.Drop, p.DropAt)
			} else {
				s += fmt.Sprintf(", %s after byte %d (+%v)", p.Drop, p.Offset, p.Later)
			}
		}
	}
	return s
}

func (p panel) bin() bool { return p.Kind == "binary" }

// reply is the panel's answer to the probe.
func (p panel) reply() []byte {
	switch p.Kind {
	case "binary":
		return cl.Ack
	case "rdy":
		return []byte("RDY\n")
	case "error":
		return []byte("ErrorMsg=No access\n")
	}
	return nil
}

func (p panel) msg(conn, i int) (wire []byte, m *rwp.OutboundMessage) {
	id := conn*100 + i + 1
	m = &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(id), Binary: &rwp.BinaryEvent{Pressed: true}}}}
	if p.bin() {
		return cl.OutFrame(m), m
	}
	return []byte(fmt.Sprintf("HWC#%d=Down\n", id)), m
}

type arrival struct {
	at time.Duration // after acceptance
	m  *rwp.OutboundMessage
}

// script is what the panel does on connection conn.
func (p panel) script(conn int) (steps []sim.Step, arr []arrival, drop time.Duration) {
	drop = -1
	start := 5 * ms
	rep := p.reply()
	limit := 1 << 30
	if p.Drop != "" && p.DropAt == 0 && p.Offset >= 0 {
		limit = p.Offset
	}
	last := time.Duration(0)
	sent := 0
	put := func(at time.Duration, b []byte) bool {
		if sent+len(b) > limit {
			b = b[:limit-sent]
		}
		if len(b) > 0 {
			steps = append(steps, sim.Step{At: at, Data: b})
			last = at
		}
		sent += len(b)
		return sent < limit
	}
	more := true
	if len(rep) > 0 {
		more = put(1*ms, rep)
	} else if p.Kind == "silent" {
		start = 2100 * ms
	}
	at := start
	if limit == 0 {
		more = false
	}
	if p.Stall {
		steps = append(steps, sim.Step{At: start - ms, Stall: true})
	}
	for i := 0; i < p.Msgs && more; i++ {
		w, m := p.msg(conn, i)
		n := p.Split
		if n <= 0 {
			n = len(w)
		}
		for k := 0; k < len(w) && more; k += n {
			e := min(k+n, len(w))
			more = put(at, w[k:e])
			if e == len(w) && last == at && sent-len(rep) > 0 && (more || sent == limit) && complete(sent, rep, p, conn, i) {
				arr = append(arr, arrival{at, m})
			}
			at += p.Gaps
		}
	}
	if p.Drop != "" {
		drop = last + p.Later
		if p.DropAt > 0 {
			drop = p.DropAt
		}
		steps = append(steps, sim.Step{At: drop, Drop: p.Drop == "fin", Reset: p.Drop == "rst"})
	}
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
	return
}

// complete reports whether message i is contained in the first sent bytes.
func complete(sent int, rep []byte, p panel, conn, i int) bool {
	n := len(rep)
	for k := 0; k <= i; k++ {
		w, _ := p.msg(conn, k)
		n += len(w)
	}
	return sent >= n
}

func (p panel) total(conn int) int {
	n := len(p.reply())
	for k := 0; k < p.Msgs; k++ {
		w, _ := p.msg(conn, k)
		n += len(w)
	}
	return n
}

// --- scenarios ------------------------------------------------------------------

type scen struct {
	Panels   []panel // the last one repeats (as other connections)
	Cancel   time.Duration
	First    bool // cancelled before the call
	Cfg      *rawpanel.ConnectToPanelConfig
	Submit   time.Duration // interval of submissions, 0: none
	SlowConn time.Duration
	SlowDisc time.Duration
	Bare     bool // no callbacks, no wait group
	Many     bool // more than 60 dials
	Untimed  bool // only what holds under starvation
}

func (s *scen) cfg() (no, re time.Duration) {
	no, re = 3*sec, 1*sec
	if s.Cfg != nil && s.Cfg.NoConnectionRetryPeriod != 0 {
		no = time.Duration(s.Cfg.NoConnectionRetryPeriod) * sec
	}
	if s.Cfg != nil && s.Cfg.ReConnectionRetryPeriod != 0 {
		re = time.Duration(s.Cfg.ReConnectionRetryPeriod) * sec
	}
	return
}

func (s *scen) input() any {
	var ps []string
	for _, p := range s.Panels {
		ps = append(ps, p.String())
	}
	cfg := "default"
	if s.Cfg != nil {
		cfg = fmt.Sprintf("%+v", *s.Cfg)
	}
	at := s.Cancel.String()
	if s.First {
		at = "before the call"
	}
	return map[string]any{"dials": ps, "cancel_at": at, "config": cfg, "submission_interval": s.Submit.String(), "connect_callback_takes": s.SlowConn.String(), "disconnect_callback_takes": s.SlowDisc.String(), "no_callbacks_no_waitgroup": s.Bare}
}

const slack = 50 * ms

// plan is what the panels do, per connection.
type plan struct {
	as        []sim.Attempt // per dial
	connPanel []panel
	connArr   [][]arrival
	connDrop  []time.Duration
}

func (s *scen) body(x *ex.X) string {
	pl := s.plan()
	return s.play(x, sim.New(x, pl.as...), pl, false)
}

// two are two clients of two panels in one process.
func two(group string, bound int, s, t *scen) *ex.Scenario {
	in := func() any { return []any{s.input(), t.input()} }
	return &ex.Scenario{Group: fmt.Sprintf("%s, bound %d", group, bound), Bound: bound, Leaky: true, Clean: true, Input: in, Body: func(x *ex.X) string {
		pl, ql := s.plan(), t.plan()
		n := sim.New(x, pl.as...)
		m := n.Also(cl.OtherAddr, ql.as...)
		return cl.Beside(func() string { return s.play(x, n, pl, true) }, func() string { return t.play(x, m, ql, true) })
	}}
}

func (s *scen) plan() plan {
	// The panels, with one further copy of the last for later dials.
	var as []sim.Attempt
	horizon := 60
	if s.Many {
		horizon = 400
	}
	k := 0
	var connPanel []panel // per connection
	var connArr [][]arrival
	var connDrop []time.Duration
	for i := 0; i < horizon; i++ {
		p := s.Panels[min(i, len(s.Panels)-1)]
		if p.Kind == "refuse" {
			as = append(as, sim.Attempt{Delay: p.Delay, Refuse: true})
			continue
		}
		st, ar, dr := p.script(k)
		as = append(as, sim.Attempt{Delay: p.Delay, Steps: st})
		connPanel, connArr, connDrop = append(connPanel, p), append(connArr, ar), append(connDrop, dr)
		k++
	}
	return plan{as, connPanel, connArr, connDrop}
}

func (s *scen) play(x *ex.X, n *sim.Net, pl plan, beside bool) string {
	no, re := s.cfg()
	connPanel, connArr, connDrop := pl.connPanel, pl.connArr, pl.connDrop
	o := cl.Opts{Beside: beside, Cfg: s.Cfg, SlowConnect: s.SlowConn, SlowDisc: s.SlowDisc, CancelFirst: s.First, NoCallbacks: s.Bare, NoWG: s.Bare}
	r := cl.Start(x, n, o)
	stopSub := make(chan struct{})
	subDone := make(chan struct{})
	go func() {
		defer close(subDone)
		if s.Submit == 0 {
			return
		}
		for i := 0; ; i++ {
			select {
			case r.To <- []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_PING}, {Command: &rwp.Command{ClearAll: true}}}:
			case <-stopSub:
				return
			}
			t := time.NewTimer(s.Submit)
			select {
			case <-t.C:
			case <-stopSub:
				t.Stop()
				return
			}
		}
	}()
	cancelAt := time.Duration(0)
	if !s.First {
		time.Sleep(s.Cancel)
		r.Cancel()
		cancelAt = r.CancelAt
	}
	var delay time.Duration
	for _, p := range s.Panels {
		delay = max(delay, p.Delay)
	}
	bound := re + delay + 2*s.SlowConn + 2*s.SlowDisc + 4*sec
	if s.Untimed {
		bound += 30 * sec
	}
	v := ""
	if s.Bare {
		time.Sleep(bound)
		if _, ok := r.Returned(); !ok {
			v = fmt.Sprintf("no-return: the call has not returned %v after cancellation", bound)
		}
		if o := n.Open(); len(o) > 0 && v == "" {
			v = fmt.Sprintf("socket: connections %v are still open after the return", o)
		}
		r.Stop(bound)
	} else {
		v = r.Stop(bound)
	}
	close(stopSub)
	<-subDone
	if v != "" {
		return v
	}
	if r.NilMsg {
		return "nil: a nil message was delivered"
	}
	if s.Bare {
		return s.deliveries(r, n, connArr, connDrop, cancelAt)
	}

	// Callbacks.
	evs := r.Events()
	connected := -1
	for i, e := range evs {
		want := "connect"
		if i%2 == 1 {
			want = "disconnect"
		}
		if e.Kind != want {
			return "alternation: callbacks do not alternate: " + cl.EvString(evs)
		}
		if e.Kind == "connect" {
			connected++
			sc, _ := e.Conn.(*sim.Conn)
			if sc == nil || connected >= len(n.Conns) || n.Conns[connected] != sc {
				return "callback: the connect callback got a connection that is not the one just opened: " + cl.EvString(evs)
			}
			if !s.Untimed {
				p := connPanel[min(connected, len(connPanel)-1)]
				if d := connDrop[connected]; d < 0 || p.Kind == "silent" && d > 2100*ms || p.Kind != "silent" && (p.DropAt > 5*ms || p.DropAt == 0 && (p.Offset < 0 || p.Offset >= len(p.reply()))) {
					if e.Binary != p.bin() {
						return fmt.Sprintf("mode: connection %d is to a %s panel: %s", connected, p.Kind, cl.EvString(evs))
					}
				}
			}
		} else if e.Cancel {
			if e.T < cancelAt {
				return fmt.Sprintf("cancelled: a disconnect was reported as cancelled at %v, before the cancellation at %v: %s", e.T, cancelAt, cl.EvString(evs))
			}
			if i != len(evs)-1 {
				return "cancelled: a disconnect reported as cancelled was not the last callback: " + cl.EvString(evs)
			}
		}
	}
	if len(evs)%2 == 1 {
		return "alternation: no disconnect was reported for the last connection: " + cl.EvString(evs)
	}
	if len(evs) < 2*len(n.Conns) {
		return fmt.Sprintf("callback: %d connections were opened: %s", len(n.Conns), cl.EvString(evs))
	}
	if s.Untimed {
		return s.deliveries(r, n, connArr, connDrop, cancelAt)
	}
	if len(evs) > 0 {
		l := evs[len(evs)-1]
		q := len(n.Conns) - 1
		dropAt := time.Duration(-1)
		if connDrop[q] >= 0 {
			dropAt = n.Conns[q].OpenedAt + connDrop[q]
		}
		if !l.Cancel && (dropAt < 0 || dropAt > cancelAt+10*ms) && l.T >= cancelAt {
			return fmt.Sprintf("cancelled: the cancellation at %v ended the connection, but the disconnect was not reported as cancelled: %s", cancelAt, cl.EvString(evs))
		}
	}
	for i := 1; i < len(evs); i += 2 {
		// A disconnect needs a reason.
		q := i / 2
		at := n.Conns[q].OpenedAt + connDrop[q]
		if (connDrop[q] < 0 || evs[i].T < at) && evs[i].T < cancelAt {
			return fmt.Sprintf("disconnect: connection %d was given up at %v for no reason: %s", q, evs[i].T, cl.EvString(evs))
		}
	}

	// Redials.
	ci := 0
	for i := 0; i < len(n.Dials); i++ {
		p := s.Panels[min(i, len(s.Panels)-1)]
		var from time.Duration
		var lo, hi time.Duration
		if p.Kind == "refuse" {
			from = n.Dials[i] + p.Delay
			lo, hi = no, no
			if s.Submit > 0 {
				lo = 0
			}
		} else {
			q := ci
			ci++
			if connDrop[q] < 0 {
				// The connection holds until the cancellation.
				if i+1 < len(n.Dials) {
					return fmt.Sprintf("redial: dial %d although connection %d was not lost", i+1, q)
				}
				continue
			}
			from = n.Conns[q].OpenedAt + connDrop[q]
			lo, hi = re, re+sec+s.SlowDisc
			if s.SlowConn > 0 {
				hi += s.SlowConn
			}
			if connPanel[q].Kind != "binary" || connDrop[q] <= 5*ms {
				hi += 0
			}
			if connPanel[q].Stall {
				hi += 0
			}
		}
		if i+1 < len(n.Dials) {
			d := n.Dials[i+1] - from
			if d < lo {
				return fmt.Sprintf("retry: dial %d came %v after the failure or loss, the retry period is %v; dials at %v", i+1, d, lo, n.Dials)
			}
			if d > hi+slack {
				return fmt.Sprintf("retry: dial %d came %v after the failure or loss, the retry period is %v; dials at %v", i+1, d, hi, n.Dials)
			}
		} else if from+hi+slack < cancelAt {
			return fmt.Sprintf("retry: no dial within %v after the failure or loss at %v, cancelled at %v; dials at %v", hi, from, cancelAt, n.Dials)
		}
	}
	return s.deliveries(r, n, connArr, connDrop, cancelAt)
}

// deliveries checks what arrived against what was sent.
func (s *scen) deliveries(r *cl.Run, n *sim.Net, arr [][]arrival, drop []time.Duration, cancelAt time.Duration) string {
	got := r.Messages()
	type exp struct {
		m        *rwp.OutboundMessage
		required bool
		conn     int
	}
	var all []exp
	evs := r.Events()
	for q := range n.Conns {
		for _, a := range arr[q] {
			at := n.Conns[q].OpenedAt + a.at
			req := at+10*ms <= cancelAt && !s.Untimed
			if s.SlowConn > 0 && q*2 < len(evs) && evs[q*2].T+s.SlowConn+10*ms > cancelAt {
				req = false
			}
			all = append(all, exp{a.m, req, q})
		}
	}
	i := 0
	for _, g := range got {
		j := -1
		for k := range all {
			if proto.Equal(all[k].m, g.M) {
				j = k
			}
		}
		if j < 0 {
			if s.Untimed {
				continue // read in the wrong protocol after starvation
			}
			return fmt.Sprintf("content: %s was delivered but never sent completely", cl.Short(g.M))
		}
		if j < i {
			return fmt.Sprintf("duplicate: %s was delivered again or out of order", cl.Short(g.M))
		}
		for ; i < j; i++ {
			if all[i].required {
				return fmt.Sprintf("lost: %s of connection %d was received completely and not delivered", cl.Short(all[i].m), all[i].conn)
			}
		}
		i = j + 1
	}
	for ; i < len(all); i++ {
		if all[i].required {
			return fmt.Sprintf("lost: %s of connection %d was received completely and not delivered", cl.Short(all[i].m), all[i].conn)
		}
	}
	return ""
}

func (s *scen) scenario(group string, bound int) *ex.Scenario {
	sc := &ex.Scenario{Group: fmt.Sprintf("%s, bound %d", group, bound), Bound: bound, Leaky: true, Clean: true, Input: s.input, Body: s.body}
	if s.Untimed {
		sc.Long = 5 * sec
	}
	return sc
}

var cfgs = []*rawpanel.ConnectToPanelConfig{nil, {}, {NoConnectionRetryPeriod: 1, ReConnectionRetryPeriod: 2}, {NoConnectionRetryPeriod: 5}, {ReConnectionRetryPeriod: 3}}

// around are instants at and around t.
func around(ts ...time.Duration) (out []time.Duration) {
	for _, t := range ts {
		for _, d := range []time.Duration{-ms, -1, 0, 1, 3, ms} {
			if t+d >= 0 {
				out = append(out, t+d)
			}
		}
	}
	return
}

// situation is a history of panels with the instants at which something happens.
type situation struct {
	name   string
	panels []panel
	times  []time.Duration
}

func situations() []situation {
	b := panel{Kind: "binary", Msgs: 2, Gaps: 300 * ms}
	bs := panel{Kind: "binary", Msgs: 1, Gaps: 100 * ms, Split: 2}
	a := panel{Kind: "silent", Msgs: 2, Gaps: 300 * ms}
	as := panel{Kind: "rdy", Msgs: 1, Gaps: 200 * ms, Split: 4}
	e := panel{Kind: "error", Drop: "fin", Offset: -1, Later: 10 * ms}
	ref := panel{Kind: "refuse"}
	slowRef := panel{Kind: "refuse", Delay: 700 * ms}
	slowB := panel{Kind: "binary", Delay: 600 * ms, Msgs: 1}
	bdrop := panel{Kind: "binary", Msgs: 2, Gaps: 100 * ms, Drop: "fin", Offset: -1, Later: 100 * ms}
	bhalf := panel{Kind: "binary", Msgs: 2, Gaps: 100 * ms, Drop: "rst", Offset: 9}
	adrop := panel{Kind: "rdy", Msgs: 2, Gaps: 100 * ms, Drop: "fin", Offset: -1, Later: 100 * ms}
	ahalf := panel{Kind: "silent", Msgs: 2, Gaps: 100 * ms, Drop: "rst", Offset: 9}
	neg := panel{Kind: "silent", Drop: "fin", DropAt: 500 * ms}
	return []situation{
		{"binary panel", []panel{b}, []time.Duration{0, ms, 5 * ms, 305 * ms}},
		{"binary panel, segmented frames", []panel{bs}, []time.Duration{0, ms, 5 * ms, 105 * ms, 205 * ms, 305 * ms}},
		{"silent ASCII panel", []panel{a}, []time.Duration{0, 2 * sec, 2100 * ms, 2400 * ms}},
		{"ASCII panel that answers", []panel{as}, []time.Duration{0, ms, 5 * ms, 205 * ms, 405 * ms}},
		{"panel with an error", []panel{e, b}, []time.Duration{0, ms, 11 * ms, 1011 * ms, 2011 * ms, 2012 * ms}},
		{"refusing, then binary", []panel{ref, ref, b}, []time.Duration{0, 3 * sec, 6 * sec, 6*sec + ms}},
		{"slow refusals", []panel{slowRef, slowRef, a}, []time.Duration{0, 700 * ms, 3700 * ms, 4400 * ms}},
		{"slow dial", []panel{slowB}, []time.Duration{0, 600 * ms, 601 * ms, 605 * ms}},
		{"binary, lost, binary", []panel{bdrop, b}, []time.Duration{205 * ms, 1205 * ms, 1206 * ms, 1210 * ms, 1510 * ms}},
		{"binary, lost in a frame, ASCII", []panel{bhalf, a}, []time.Duration{5 * ms, 6 * ms, 1005 * ms, 3005 * ms, 3105 * ms}},
		{"ASCII, lost, refusing", []panel{adrop, ref}, []time.Duration{205 * ms, 1205 * ms, 2205 * ms, 5205 * ms}},
		{"ASCII, lost in a line, binary", []panel{ahalf, bdrop, b}, []time.Duration{2100 * ms, 3100 * ms, 3101 * ms, 3305 * ms, 4305 * ms}},
		{"lost in the negotiation", []panel{neg, b}, []time.Duration{500 * ms, 1500 * ms, 2500 * ms, 2501 * ms}},
	}
}

func cancellation() (out []*ex.Scenario) {
	grid := vk.Pick(c, 250*ms, 125*ms)
	for _, st := range situations() {
		out = append(out, (&scen{Panels: st.panels, First: true}).scenario("before the call", vk.Pick(c, 2, 3)))
		out = append(out, (&scen{Panels: st.panels, First: true, Bare: true}).scenario("no callbacks, no wait group", 1))
		for t := time.Duration(0); t < 8*sec; t += grid {
			s := &scen{Panels: st.panels, Cancel: t + 13*ms}
			out = append(out, s.scenario("grid", vk.Pick(c, 0, 1)))
		}
		for i, t := range around(st.times...) {
			for k, cfg := range cfgs {
				if k > 0 && !c.Thorough() && i%2 == 1 {
					continue
				}
				// Other periods move later events; the instants stay a grid then.
				s := &scen{Panels: st.panels, Cancel: t, Cfg: cfg}
				out = append(out, s.scenario("around events", vk.Pick(c, 1, 1)))
			}
			s := &scen{Panels: st.panels, Cancel: t, Bare: true}
			out = append(out, s.scenario("no callbacks, no wait group", 0))
			for _, slow := range []time.Duration{ms, 400 * ms, 2500 * ms} {
				out = append(out, (&scen{Panels: st.panels, Cancel: t, SlowConn: slow}).scenario("slow connect callback", 0))
				out = append(out, (&scen{Panels: st.panels, Cancel: t, SlowDisc: slow}).scenario("slow disconnect callback", 0))
			}
		}
		for ti, t := range st.times {
			for _, d := range []time.Duration{0, 1} {
				s := &scen{Panels: st.panels, Cancel: t + d}
				b := 2
				if (d > 0 || ti%2 == 1) && !c.Thorough() {
					b = 1
				}
				out = append(out, s.scenario("at events", b))
			}
			s := &scen{Panels: st.panels, Cancel: t + 1, Submit: 150 * ms}
			out = append(out, s.scenario("at events, submitting", 1))
		}
	}
	return
}

// loss drops the connection at every offset of the panel's stream.
func loss() (out []*ex.Scenario) {
	for _, kind := range []string{"binary", "rdy", "silent", "error"} {
		for _, how := range []string{"fin", "rst"} {
			for _, split := range []int{0, 3, 1} {
				base := panel{Kind: kind, Msgs: 3, Gaps: ms, Split: split, Drop: how}
				total := base.total(0)
				for off := 0; off <= total; off++ {
					for li, later := range []time.Duration{0, 10 * ms, 1700 * ms, 5 * sec} {
						p := base
						p.Offset, p.Later = off, later
						if p.bin() && later >= 1900*ms && off < total {
							continue // the client may give up the unfinished frame itself
						}
						next := panel{Kind: "binary", Msgs: 2, Gaps: 20 * ms}
						if off%2 == 1 {
							next.Kind = "rdy"
						}
						for ci, cfg := range cfgs {
							if ci > 0 && (li != off%4 || split != 0) {
								continue
							}
							b := 0
							if split == 0 && li < 2 && ci == 0 {
								b = 1
							}
							s := &scen{Panels: []panel{p, next}, Cancel: 14 * sec, Cfg: cfg}
							out = append(out, s.scenario("every offset", b))
						}
						if split == 3 && li < 2 {
							for _, d := range []time.Duration{-1, 0, 1, 500 * ms, 1001 * ms} {
								_, _, dr := p.script(0)
								if dr+d < 0 {
									continue
								}
								s := &scen{Panels: []panel{p, next}, Cancel: dr + d}
								out = append(out, s.scenario("every offset, then cancelled", vk.Pick(c, 0, 1)))
							}
							s := &scen{Panels: []panel{p, next}, Cancel: 7 * sec, Submit: 70 * ms}
							out = append(out, s.scenario("every offset, submitting", 0))
						}
					}
				}
				if split == 0 {
					for _, off := range []int{len(base.reply()), len(base.reply()) + 2, len(base.reply()) + 5, total - 1, total} {
						p := base
						p.Offset = off
						s := &scen{Panels: []panel{p, {Kind: "binary", Msgs: 1}}, Cancel: 5 * sec, Submit: 400 * ms}
						out = append(out, s.scenario("typical offsets", map[bool]int{false: 1, true: 2}[c.Thorough() && how == "fin" && off%2 == 0]))
						_, _, dr := p.script(0)
						s = &scen{Panels: []panel{p, {Kind: "binary", Msgs: 1}}, Cancel: dr}
						out = append(out, s.scenario("typical offsets, cancelled at once", vk.Pick(c, map[string]int{"fin": 2, "rst": 1}[how], 2)))
					}
				}
			}
		}
	}
	return
}

func cycles() (out []*ex.Scenario) {
	kinds := []panel{
		{Kind: "binary", Msgs: 2, Gaps: 10 * ms, Drop: "fin", Offset: -1, Later: 20 * ms},
		{Kind: "rdy", Msgs: 2, Gaps: 10 * ms, Drop: "fin", Offset: -1},
		{Kind: "silent", Msgs: 1, Drop: "rst", Offset: -1},
		{Kind: "refuse"},
		{Kind: "binary", Msgs: 2, Drop: "rst", Offset: 9},
	}
	n := len(kinds)
	var hist func(p []panel, d int)
	hist = func(p []panel, d int) {
		if d == 0 {
			ps := append(append([]panel{}, p...), panel{Kind: "binary", Msgs: 1})
			for i, cfg := range cfgs {
				if i > 1 && !c.Thorough() {
					continue
				}
				b := 0
				if i == 0 && len(p) < 4 {
					b = 1
				}
				out = append(out, (&scen{Panels: ps, Cancel: 25 * sec, Cfg: cfg}).scenario("histories of losses", b))
			}
			out = append(out, (&scen{Panels: ps, Cancel: 25 * sec, Submit: 230 * ms}).scenario("histories of losses, submitting", 0))
			return
		}
		for i := 0; i < n; i++ {
			hist(append(p, kinds[i]), d-1)
		}
	}
	hist(nil, 1)
	hist(nil, 2)
	hist(nil, 3)
	if c.Thorough() {
		hist(nil, 4)
	}
	// long configured periods: a cancellation ends the wait for a panel at once
	long := &rawpanel.ConnectToPanelConfig{NoConnectionRetryPeriod: 60, ReConnectionRetryPeriod: 20}
	for _, ps := range [][]panel{
		{{Kind: "refuse"}}, {{Kind: "refuse", Delay: 300 * ms}}, {{Kind: "refuse"}, {Kind: "binary", Msgs: 2}},
		{kinds[0], {Kind: "refuse"}}, {kinds[2], {Kind: "binary", Msgs: 2}}, {{Kind: "refuse"}, kinds[1], {Kind: "refuse"}},
	} {
		for _, at := range append(around(0, 300*ms, 60*sec, 80*sec), 10*ms, sec, 5*sec, 21*sec, 30*sec, 59*sec, 61*sec, 100*sec, 130*sec) {
			for _, sub := range []time.Duration{0, 700 * ms} {
				if sub > 0 && at > 35*sec {
					continue
				}
				for _, cfg := range []*rawpanel.ConnectToPanelConfig{long, {NoConnectionRetryPeriod: 60}, {ReConnectionRetryPeriod: 20}} {
					out = append(out, (&scen{Panels: ps, Cancel: at, Cfg: cfg, Submit: sub}).scenario("long periods", map[bool]int{true: 1}[sub == 0 && at < 6*sec || c.Thorough()]))
				}
			}
		}
	}
	for _, ps := range [][]panel{
		{kinds[0]}, {kinds[1]}, {kinds[2]}, {kinds[3]}, {kinds[4]},
		{kinds[3], kinds[3], kinds[0], kinds[3], kinds[1]},
	} {
		var many []panel
		for len(many) < 120 {
			many = append(many, ps...)
		}
		many = append(many, panel{Kind: "binary", Msgs: 3, Gaps: 20 * ms})
		for _, cfg := range []*rawpanel.ConnectToPanelConfig{nil, {NoConnectionRetryPeriod: 1, ReConnectionRetryPeriod: 1}} {
			out = append(out, (&scen{Panels: many, Cancel: 700 * sec, Cfg: cfg, Many: true}).scenario("long histories of losses", 0))
		}
	}
	// ten losses of the same kind
	for _, k := range kinds {
		for _, cfg := range cfgs {
			out = append(out, (&scen{Panels: []panel{k}, Cancel: 17*sec + 7*ms, Cfg: cfg}).scenario("repeated losses", vk.Pick(c, 0, 1)))
			out = append(out, (&scen{Panels: []panel{k}, Cancel: 17*sec + 7*ms, Cfg: cfg, Submit: 510 * ms}).scenario("repeated losses, submitting", 0))
		}
	}
	// panels that stop reading
	for _, kind := range []string{"binary", "rdy", "silent"} {
		for _, drop := range []string{"", "fin", "rst"} {
			for _, at := range []time.Duration{10 * ms, 2099 * ms, 2500 * ms, 2501 * ms, 4 * sec} {
				p := panel{Kind: kind, Msgs: 1, Stall: true, Drop: drop, DropAt: 2500 * ms}
				s := &scen{Panels: []panel{p, {Kind: "binary", Msgs: 1}}, Cancel: at, Submit: 30 * ms}
				out = append(out, s.scenario("panel that does not read", map[bool]int{false: 1, true: 2}[c.Thorough() && drop == "" && kind != "silent"]))
			}
		}
	}
	// refusals with submissions
	for _, d := range []time.Duration{0, 200 * ms} {
		for _, sub := range []time.Duration{10 * ms, 100 * ms, 900 * ms} {
			for _, at := range around(0, 200*ms, 3*sec) {
				s := &scen{Panels: []panel{{Kind: "refuse", Delay: d}, {Kind: "refuse", Delay: d}, {Kind: "binary", Msgs: 1, Delay: d}}, Cancel: at, Submit: sub}
				out = append(out, s.scenario("refusals, submitting", vk.Pick(c, 0, 1)))
			}
		}
	}
	return
}

// beside runs every pair of situations in one process; one client is cancelled
// early, the other one later.
func beside() (out []*ex.Scenario) {
	sts := situations()
	for i, a := range sts {
		for j, b := range sts {
			for _, early := range a.times {
				s := &scen{Panels: a.panels, Cancel: early + ms}
				t := &scen{Panels: b.panels, Cancel: b.times[len(b.times)-1] + 8*sec, Cfg: cfgs[(i+j)%len(cfgs)]}
				if (i+j)%3 == 0 {
					t.Submit = 450 * ms
				}
				out = append(out, two("two clients", 0, s, t))
			}
			if (i*7+j*3)%8 == 0 || c.Thorough() {
				k := (i + j) % len(a.times)
				s := &scen{Panels: a.panels, Cancel: a.times[k]}
				t := &scen{Panels: b.panels, Cancel: a.times[k] + 1300*ms}
				out = append(out, two("two clients", 1, s, t))
			}
		}
	}
	return
}

func starvation() (out []*ex.Scenario) {
	for si, st := range situations() {
		ts := append([]time.Duration{}, st.times...)
		ts = append(ts, st.times[len(st.times)-1]+2*sec, st.times[len(st.times)-1]+7*sec)
		for _, t := range ts {
			for _, sub := range []time.Duration{0, 400 * ms} {
				s := &scen{Panels: st.panels, Cancel: t, Submit: sub, Untimed: true}
				b := 1
				if c.Thorough() && sub == 0 && si%2 == 0 {
					b = 2
				}
				out = append(out, s.scenario("starved for 5 s", b))
			}
		}
	}
	return
}

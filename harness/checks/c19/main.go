// C19: the high-level client. A scripted panel initialises it and sends
// histories of events, updates, pings and malformed frames; handlers send
// feedback and are registered meanwhile. All schedules with a bounded number of
// deviations are executed, a part of them with the race detector.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"reflect"
	"slices"
	"strings"
	"sync"
	"time"
	"unsafe"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	"github.com/SKAARHOJ/rawpanel-lib/gorwp"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"github.com/SKAARHOJ/rawpanel-lib/topology"
	"google.golang.org/protobuf/proto"

	"verif.local/harness/cl"
	"verif.local/harness/ex"
	"verif.local/harness/sim"
	"verif.local/harness/vk"
)

var c *vk.Check

func main() {
	vk.Main("C19", func(k *vk.Check) {
		c = k
		c.Assume("Handlers return; the panel reads what it is sent, if late.",
			"The initialisation window is 2 s from the end of the protocol detection; information arriving between 1.9 s and 2.1 s is not judged.",
			"A handler bound while events are flowing must see the events that arrive 10 ms or more after the binding; for earlier ones it may be called once.",
			"The order of handlers of different kinds for the same event is free.",
			"A frame is broken when its payload does not arrive within 2 s; after a payload that is no protobuf message only the freedom from panics and the events before it are judged.",
			"Availability has no getter: it is read from the state field when there is one.",
			"Exploration: every statement of package gorwp, every select and every socket operation is a choice point; the network is simulated.")
		o := ex.Options{Setup: warm, Mask: []string{"converterFunctions.go", "rawpanelhelpers.go"}}
		ex.Explore(c, "initialisation", initialisation, o)
		ex.Explore(c, "histories", histories, o)
		ex.Explore(c, "malformed frames", malformed, o)
		ex.Explore(c, "interleavings", interleavings, o)
		ex.Explore(c, "two clients of two panels in one process", func() []*ex.Scenario { return beside(false) }, o)
		r := o
		r.Race = true
		ex.Explore(c, "two clients with the race detector", func() []*ex.Scenario { return beside(true) }, r)
		ex.Explore(c, "interleavings with the race detector", raced, r)
	})
}

const ms = time.Millisecond
const sec = time.Second

func warm() {
	cl.Warm()
	rawpanel.RawPanelASCIIstringsToOutboundMessages([]string{"_model=x", "_panelTopology_HWC={}"})
}

const topoJSON = `{"title":"T","HWc":[{"id":1,"x":10,"y":10,"txt":"B","type":1},{"id":2,"x":30,"y":10,"txt":"E","type":2}],"typeIndex":{"1":{"w":10,"h":10,"in":"b"},"2":{"w":10,"h":10,"in":"pb"}}}`
const topoSVG = `<svg width="100" height="50"></svg>`

// item is one thing the panel sends.
type item struct {
	At   time.Duration // after base
	Msg  *rwp.OutboundMessage
	Raw  []byte // instead
	Cut  int    // split off the first bytes
	Gap  time.Duration
	Fin  bool
	Name string
}

type bind struct {
	Kind string // binary, pulsed, absolute, intensity, trigger
	ID   uint32
	At   time.Duration // -1: before the history
	Tag  int           // told apart in the calls
}

type scen struct {
	Mode     string // binary, rdy, silent
	Items    []item // from Start on
	Segment  int    // 0: one segment per item; n: the whole stream in segments of n bytes at At of the first
	Binds    []bind
	Feedback int           // messages a handler sends per event
	FBKind   string        // led, index, text, struct, raw, brightness
	Rebind   bool          // handlers bind further handlers
	Slow     time.Duration // handlers take that long
	Look     bool          // handlers read the state
	App      time.Duration // interval of the application's own messages, 0: none
	Stall    []time.Duration
	Getters  bool // the application reads the state all the time
	Close    time.Duration
	Beside   *scen // a second client at the same time

	// initialisation
	Init       []item // instead of the default
	WantInit   int    // 1, 0, -1
	CancelInit time.Duration
}

func (s *scen) input() any {
	var its []string
	for i, t := range append(append([]item{}, s.Init...), s.Items...) {
		if i > 14 {
			its = append(its, fmt.Sprintf("... %d in all", len(s.Items)+len(s.Init)))
			break
		}
		d := t.Name
		if d == "" && t.Msg != nil {
			b, _ := proto.Marshal(t.Msg)
			d = fmt.Sprintf("%x", b[:min(len(b), 24)])
		} else if d == "" {
			d = fmt.Sprintf("% x", t.Raw[:min(len(t.Raw), 16)])
		}
		its = append(its, fmt.Sprintf("+%v %s (cut %d, pause %v, fin %v)", t.At, d, t.Cut, t.Gap, t.Fin))
	}
	var beside any
	if s.Beside != nil {
		beside = s.Beside.input()
	}
	return map[string]any{"second_client": beside, "mode": s.Mode, "panel_sends": its, "segment_bytes": s.Segment, "bindings": s.Binds, "feedback_per_event": s.Feedback, "feedback": s.FBKind, "rebind": s.Rebind, "handlers_take": s.Slow.String(), "handlers_read_state": s.Look, "application_interval": s.App.String(), "panel_stall": s.Stall, "getters": s.Getters, "cancel_in_init": s.CancelInit.String()}
}

func (s *scen) scenario(group string, bound int) *ex.Scenario {
	return &ex.Scenario{Group: fmt.Sprintf("%s, bound %d", group, bound), Bound: bound, Leaky: true, Input: s.input, Body: s.body}
}

func (s *scen) enc(m *rwp.OutboundMessage) []byte {
	if s.Mode == "binary" {
		return cl.OutFrame(m)
	}
	var b []byte
	for _, l := range rawpanel.OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{m}) {
		b = append(b, l+"\n"...)
	}
	return b
}

func defaultInit() []item {
	return []item{
		{At: 5 * ms, Msg: &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: "RCP", Serial: "S1", Name: "N1"}}},
		{At: 6 * ms, Msg: &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: topoJSON, Svgbase: topoSVG}}},
	}
}

// call is one handler invocation.
type call struct {
	Kind string
	ID   uint32
	A, B int
	Tag  int
	T    time.Duration
	Ev   *rwp.HWCEvent
}

func (k call) String() string { return fmt.Sprintf("%s(%d,%d,%d)@%v", k.Kind, k.ID, k.A, k.B, k.T) }
func (k call) same(o call) bool {
	return k.Kind == o.Kind && k.ID == o.ID && k.A == o.A && k.B == o.B && k.Tag == o.Tag && (k.Ev == nil || o.Ev == nil || proto.Equal(k.Ev, o.Ev))
}

// expected are the calls for an event by the given binding kind.
func expected(e *rwp.HWCEvent, kind string) (call, bool) {
	switch kind {
	case "trigger":
		return call{Kind: kind, ID: e.HWCID, Ev: e}, true
	case "binary":
		if e.Binary != nil {
			a := 0
			if e.Binary.Pressed {
				a = 1
			}
			return call{Kind: kind, ID: e.HWCID, A: a, B: int(e.Binary.Edge)}, true
		}
	case "pulsed":
		if e.Pulsed != nil {
			return call{Kind: kind, ID: e.HWCID, A: int(e.Pulsed.Value)}, true
		}
	case "absolute":
		if e.Absolute != nil {
			return call{Kind: kind, ID: e.HWCID, A: int(e.Absolute.Value)}, true
		}
	case "intensity":
		if e.Speed != nil {
			return call{Kind: kind, ID: e.HWCID, A: int(e.Speed.Value)}, true
		}
	}
	return call{}, false
}

type rec struct {
	mu    sync.Mutex
	calls []call
	sent  []int // feedback numbers sent
	next  int
}

var picture = image.NewGray(image.Rect(0, 0, 4, 4))

func (s *scen) feedback(p *gorwp.RawPanel, n int) {
	// The number travels in the component id.
	id := uint32(100000 + n)
	switch s.FBKind {
	case "led":
		p.SetLEDColor(id, color.RGBA{255, 128, 0, 255}, rwp.HWCMode_ON)
	case "index":
		p.SetLEDColorByIndex(id, 5, rwp.HWCMode_DIMMED)
	case "text":
		p.SetRWPText(id, "title", "a", "b", true)
	case "struct":
		p.SetRWPTextByStruct(id, &rwp.HWCText{Title: "x"})
	case "image":
		p.DrawImageOptions(id, picture, &topology.TopologyHWcTypeDef_Display{W: 16, H: 8}, gorwp.Fit, gorwp.Mono)
	default:
		p.SendRawState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCMode: &rwp.HWCMode{State: 4}})
	}
}

// count parses what the panel received.
func (s *scen) count(b []byte) (acks, pings int, ids map[int]int, commands int, v string) {
	ids = map[int]int{}
	rest, ok := strings.CutPrefix(string(b), string(cl.Ping))
	if !ok {
		return 0, 0, nil, 0, fmt.Sprintf("stream: the connection began with %q", b[:min(len(b), 12)])
	}
	var ms []*rwp.InboundMessage
	if s.Mode == "binary" {
		d := []byte(rest)
		for len(d) > 0 {
			if len(d) < 4 || int(binary.LittleEndian.Uint32(d)) > len(d)-4 {
				return 0, 0, nil, 0, fmt.Sprintf("stream: the panel received an incomplete frame %q", d[:min(len(d), 30)])
			}
			k := int(binary.LittleEndian.Uint32(d))
			m := &rwp.InboundMessage{}
			if proto.Unmarshal(d[4:4+k], m) != nil {
				return 0, 0, nil, 0, fmt.Sprintf("stream: the panel received an undecodable frame %q", d[:min(len(d), 30)])
			}
			ms = append(ms, m)
			d = d[4+k:]
		}
	} else {
		if rest, ok = strings.CutPrefix(rest, "\n"); !ok {
			return 0, 0, nil, 0, fmt.Sprintf("stream: no line feed after the probe: %q", rest[:min(len(rest), 12)])
		}
		if rest != "" && !strings.HasSuffix(rest, "\n") {
			return 0, 0, nil, 0, "stream: the panel received an unfinished line"
		}
		for _, l := range strings.Split(strings.TrimSuffix(rest, "\n"), "\n") {
			// One command may have several lines: count by what identifies it.
			switch {
			case l == "ack":
				acks++
			case l == "ping":
				pings++
			case l == "list":
				commands++
			}
		}
		ms = rawpanel.RawPanelASCIIstringsToInboundMessages(strings.Split(strings.TrimSuffix(rest, "\n"), "\n"))
		seen := map[int]bool{}
		for _, m := range ms {
			for _, st := range m.States {
				for _, id := range st.HWCIDs {
					if id >= 100000 && !seen[int(id)] {
						seen[int(id)] = true
						ids[int(id)-100000]++
					}
				}
			}
		}
		return
	}
	for _, m := range ms {
		switch m.FlowMessage {
		case rwp.InboundMessage_ACK:
			acks++
		case rwp.InboundMessage_PING:
			pings++
		}
		if m.Command != nil && m.Command.SendPanelInfo {
			commands++
		}
		for _, st := range m.States {
			for _, id := range st.HWCIDs {
				if id >= 100000 {
					ids[int(id)-100000]++
				}
			}
		}
	}
	return
}

// asked: the panel was asked for everything the client keeps; a panel need not
// send it otherwise.
func (s *scen) asked(stream []byte) string {
	d := bytes.TrimPrefix(stream, cl.Ping)
	var ms []*rwp.InboundMessage
	if s.Mode == "binary" {
		for len(d) >= 4 && int(binary.LittleEndian.Uint32(d)) <= len(d)-4 {
			k := int(binary.LittleEndian.Uint32(d))
			m := &rwp.InboundMessage{}
			if proto.Unmarshal(d[4:4+k], m) == nil {
				ms = append(ms, m)
			}
			d = d[4+k:]
		}
	} else {
		ms = rawpanel.RawPanelASCIIstringsToInboundMessages(strings.Split(string(d), "\n"))
	}
	info, topo, avail := false, false, false
	for _, m := range ms {
		if k := m.Command; k != nil {
			info, topo, avail = info || k.SendPanelInfo, topo || k.SendPanelTopology, avail || k.ReportHWCavailability
		}
	}
	if !info || !topo || !avail {
		return fmt.Sprintf("init: the panel was asked for its information: %v, topology: %v, availability: %v", info, topo, avail)
	}
	return ""
}

// plan is what the panel does.
type plan struct {
	base, last time.Duration
	init       []item
	arrive     []time.Duration // of the items, when complete
	steps      []sim.Step
}

func (s *scen) body(x *ex.X) string {
	pl := s.prepare()
	n := sim.New(x, sim.Attempt{Steps: pl.steps})
	if s.Beside == nil {
		return s.drive(x, n, sim.Addr, pl)
	}
	// Another client of another panel in the same process.
	pl2 := s.Beside.prepare()
	n2 := n.Also(cl.OtherAddr, sim.Attempt{Steps: pl2.steps})
	res := make(chan string, 1)
	go func() { res <- s.Beside.drive(x, n2, cl.OtherAddr, pl2) }()
	v := s.drive(x, n, sim.Addr, pl)
	if w := <-res; v == "" && w != "" {
		return w + " (second client)"
	}
	return v
}

func (s *scen) prepare() plan {
	base := 5 * ms // detection is over
	var steps []sim.Step
	switch s.Mode {
	case "binary":
		steps = append(steps, sim.Step{At: ms, Data: cl.Ack})
	case "rdy":
		steps = append(steps, sim.Step{At: ms, Data: []byte("RDY\n")})
	case "silent":
		base = 2005 * ms
	}
	init := s.Init
	if init == nil {
		init = defaultInit()
	}
	var arrive []time.Duration // of the items, when complete
	emit := func(t item) {
		d := t.Raw
		if t.Msg != nil {
			d = s.enc(t.Msg)
		}
		at := base + t.At
		if t.Cut > 0 && t.Cut < len(d) {
			steps = append(steps, sim.Step{At: at, Data: d[:t.Cut]})
			at += t.Gap
			d = d[t.Cut:]
		}
		if len(d) > 0 {
			steps = append(steps, sim.Step{At: at, Data: d})
		}
		if t.Fin {
			steps = append(steps, sim.Step{At: at, Drop: true})
		}
		arrive = append(arrive, at)
	}
	for _, t := range init {
		emit(t)
	}
	arrive = nil
	last := time.Duration(0)
	if s.Segment > 0 && len(s.Items) > 0 {
		var d []byte
		for _, t := range s.Items {
			if t.Msg != nil {
				d = append(d, s.enc(t.Msg)...)
			} else {
				d = append(d, t.Raw...)
			}
		}
		at := base + s.Items[0].At
		for k := 0; k < len(d); k += s.Segment {
			steps = append(steps, sim.Step{At: at, Data: d[k:min(k+s.Segment, len(d))]})
		}
		for range s.Items {
			arrive = append(arrive, at)
		}
		last = at
	} else {
		for _, t := range s.Items {
			emit(t)
			last = max(last, arrive[len(arrive)-1])
		}
	}
	if len(s.Stall) == 2 {
		steps = append(steps, sim.Step{At: base + s.Stall[0], Stall: true}, sim.Step{At: base + s.Stall[1], Go: true})
		last = max(last, base+s.Stall[1])
	}
	return plan{base, last, init, arrive, steps}
}

func (s *scen) drive(x *ex.X, n *sim.Net, addr string, pl plan) string {
	base, last, init, arrive := pl.base, pl.last, pl.init, pl.arrive
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		p   *gorwp.RawPanel
		err error
		at  time.Duration
	}
	got := make(chan res, 1)
	go func() {
		p, err := gorwp.Connect(addr, ctx, cancel)
		got <- res{p, err, x.T()}
	}()
	if s.CancelInit > 0 {
		go func() { time.Sleep(base + s.CancelInit); x.Log("cancel"); cancel() }()
	}
	var r res
	t := time.NewTimer(15 * sec)
	select {
	case r = <-got:
	case <-t.C:
		return "connect: Connect did not return within 15 s"
	}
	t.Stop()
	x.Log("connect returned %v", r.err)
	end := func() {
		cancel()
		for _, k := range n.Conns {
			k.Drop(false)
		}
		time.Sleep(3 * sec)
	}
	if s.Init != nil {
		defer end()
		if s.WantInit == 1 && r.err != nil {
			return "connect: Connect failed although the panel sent everything in time: " + r.err.Error()
		}
		if s.WantInit == 0 && r.err == nil {
			return "connect: Connect succeeded although the panel did not send everything in time"
		}
		if r.err == nil && r.p == nil || r.err != nil && r.p != nil {
			return "connect: Connect returned a panel and an error or neither"
		}
		if r.at > base+2200*ms {
			return fmt.Sprintf("connect: Connect took until %v", r.at)
		}
		if s.WantInit == 1 && len(s.Items) == 0 {
			time.Sleep(20 * ms)
			if v := s.state(r.p, init, 1<<62); v != "" {
				return v
			}
			if s.CancelInit == 0 && !slices.ContainsFunc(init, func(t item) bool { return t.Fin }) {
				acks := 0
				for _, t := range init {
					if t.Msg != nil && t.Msg.FlowMessage == rwp.OutboundMessage_PING {
						acks++
					}
				}
				a, _, _, cmds, v := s.count(n.Conn(0).Bytes())
				if v != "" {
					return v
				}
				if v := s.asked(n.Conn(0).Bytes()); v != "" {
					return v
				}
				if a != acks || cmds != 1 {
					return fmt.Sprintf("init: %d pings were answered with %d acknowledges and the panel was asked %d times for its information", acks, a, cmds)
				}
			}
		}
		return ""
	}
	if r.err != nil {
		return "connect: Connect failed although the panel sent everything in time: " + r.err.Error()
	}
	p := r.p
	rc := &rec{}
	on := func(k call) {
		k.T = x.T()
		rc.mu.Lock()
		rc.calls = append(rc.calls, k)
		var ns []int
		for i := 0; i < s.Feedback; i++ {
			ns = append(ns, rc.next)
			rc.next++
		}
		rc.mu.Unlock()
		x.Log("handler %s(%d,%d,%d)", k.Kind, k.ID, k.A, k.B)
		for _, i := range ns {
			s.feedback(p, i)
		}
		if s.Rebind {
			p.BindBinary(k.ID+5000, func(uint32, gorwp.BinaryStatus, gorwp.BinaryEdge) {})
			p.BindPulsed(k.ID+5000, func(uint32, int) {})
			p.BindAbsolute(k.ID+5000, func(uint32, int) {})
			p.BindIntensity(k.ID+5000, func(uint32, int) {})
			p.BindTrigger(k.ID+5000, func(uint32, *rwp.HWCEvent) {})
		}
		if s.Look {
			p.State.GetModel()
			p.State.GetSerial()
			p.State.GetName()
			p.State.GetTopology()
			p.IsInitialized()
		}
		if s.Slow > 0 {
			time.Sleep(s.Slow)
		}
	}
	doBind := func(b bind) {
		switch b.Kind {
		case "binary":
			p.BindBinary(b.ID, func(id uint32, st gorwp.BinaryStatus, e gorwp.BinaryEdge) {
				on(call{Kind: "binary", ID: id, Tag: b.Tag, A: int(st), B: int(e)})
			})
		case "pulsed":
			p.BindPulsed(b.ID, func(id uint32, v int) { on(call{Kind: "pulsed", ID: id, Tag: b.Tag, A: v}) })
		case "absolute":
			p.BindAbsolute(b.ID, func(id uint32, v int) { on(call{Kind: "absolute", ID: id, Tag: b.Tag, A: v}) })
		case "intensity":
			p.BindIntensity(b.ID, func(id uint32, v int) { on(call{Kind: "intensity", ID: id, Tag: b.Tag, A: v}) })
		case "trigger":
			p.BindTrigger(b.ID, func(id uint32, e *rwp.HWCEvent) {
				if id != e.HWCID {
					on(call{Kind: "trigger", ID: id, Tag: b.Tag, A: -1})
					return
				}
				on(call{Kind: "trigger", ID: id, Tag: b.Tag, Ev: proto.Clone(e).(*rwp.HWCEvent)})
			})
		}
	}
	boundAt := make([]time.Duration, len(s.Binds))
	late := 0
	for i, b := range s.Binds {
		if b.At < 0 {
			doBind(b)
			boundAt[i] = -1
		} else {
			late++
			boundAt[i] = base + b.At
		}
	}
	var wg sync.WaitGroup
	if late > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, b := range s.Binds {
				if b.At >= 0 {
					time.Sleep(max(0, base+b.At-x.T()))
					doBind(b)
					rc.mu.Lock()
					boundAt[i] = x.T()
					rc.mu.Unlock()
				}
			}
		}()
	}
	stop := make(chan struct{})
	appSent := 0
	if s.App > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; x.T() < last+100*ms; i++ {
				s.feedback(p, 500000+i)
				rc.mu.Lock()
				appSent++
				rc.mu.Unlock()
				time.Sleep(s.App)
			}
		}()
	}
	if s.Getters {
		gi := 700 * time.Microsecond
		if len(s.Items) < 4 {
			gi = 5 * ms
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x.T() < last+50*ms {
				p.State.GetModel()
				p.State.GetName()
				p.State.GetSerial()
				if t := p.State.GetTopology(); t != nil {
					_ = len(t.HWc)
				}
				p.IsInitialized()
				time.Sleep(gi)
			}
		}()
	}
	// Getters follow the updates.
	for i, t := range s.Items {
		if t.Msg != nil && (t.Msg.PanelInfo != nil || t.Msg.PanelTopology != nil || t.Msg.HWCavailability != nil) && (i+1 == len(s.Items) || arrive[i+1] > arrive[i]+20*ms) && s.Feedback == 0 && len(s.Stall) == 0 {
			time.Sleep(max(0, arrive[i]+10*ms-x.T()))
			if v := s.state(p, append(append([]item{}, init...), s.Items[:i+1]...), 0); v != "" {
				end()
				return v
			}
		}
	}
	time.Sleep(max(0, last-x.T()) + 4*sec + 500*ms)
	v := s.judge(rc, n.Conn(0), arrive, boundAt, &appSent, x.T())
	close(stop)
	end()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	t = time.NewTimer(5 * sec)
	select {
	case <-done:
	case <-t.C:
		if v == "" {
			v = "stuck: the application is still blocked in sending or binding"
		}
	}
	t.Stop()
	return v
}

// sameTopology compares the exported content.
func sameTopology(a, b *topology.Topology) bool {
	x, err1 := json.Marshal(a)
	y, err2 := json.Marshal(b)
	return err1 == nil && err2 == nil && bytes.Equal(x, y)
}

// state compares the getters with what was sent.
func (s *scen) state(p *gorwp.RawPanel, sent []item, _ time.Duration) string {
	var model, serial, name, js, svg string
	avail := map[uint32]uint32{}
	for _, t := range sent {
		if t.Msg == nil {
			continue
		}
		if i := t.Msg.PanelInfo; i != nil {
			if i.Model != "" {
				model = i.Model
			}
			if i.Serial != "" {
				serial = i.Serial
			}
			if i.Name != "" {
				name = i.Name
			}
		}
		if i := t.Msg.PanelTopology; i != nil && i.Json != "" {
			js = i.Json
		}
		if i := t.Msg.PanelTopology; i != nil && i.Svgbase != "" {
			svg = i.Svgbase
		}
		for k, v := range t.Msg.HWCavailability {
			avail[k] = v
		}
	}
	if g := p.State.GetModel(); g != model {
		return fmt.Sprintf("state: model is %q, the panel sent %q", g, model)
	}
	if g := p.State.GetSerial(); g != serial {
		return fmt.Sprintf("state: serial is %q, the panel sent %q", g, serial)
	}
	if g := p.State.GetName(); g != name {
		return fmt.Sprintf("state: name is %q, the panel sent %q", g, name)
	}
	tp := p.State.GetTopology()
	if tp == nil {
		return "state: no topology"
	}
	want := &topology.Topology{}
	if err := json.Unmarshal([]byte(js), want); err != nil {
		return "harness: " + err.Error()
	}
	if !sameTopology(tp, want) {
		a, _ := json.Marshal(tp)
		b, _ := json.Marshal(want)
		return fmt.Sprintf("state: the topology is %.600s, the panel sent %.600s", a, b)
	}
	if f := reflect.ValueOf(&p.State).Elem().FieldByName("topologySVG"); f.IsValid() && f.Kind() == reflect.String {
		p.State.RLock()
		g := strings.Clone(f.String())
		p.State.RUnlock()
		// The ASCII protocol flattens it.
		if s.Mode == "binary" && g != svg || len(strings.Fields(g)) != len(strings.Fields(svg)) {
			return fmt.Sprintf("state: the topology SVG is %.200q, the panel sent %.200q", g, svg)
		}
	}
	if f := reflect.ValueOf(&p.State).Elem().FieldByName("hwcAvailability"); f.IsValid() && f.Type() == reflect.TypeOf(avail) {
		p.State.RLock()
		m := *(*map[uint32]uint32)(unsafe.Pointer(f.UnsafeAddr()))
		d := len(m) != len(avail)
		for k, v := range avail {
			if w, ok := m[k]; !ok || w != v {
				d = true
			}
		}
		g := fmt.Sprint(m)
		p.State.RUnlock()
		if d {
			return fmt.Sprintf("state: availability is %v, the panel sent %v", g, avail)
		}
	}
	return ""
}

// judge compares the handler calls and the panel's input with the history.
func (s *scen) judge(rc *rec, conn *sim.Conn, arrive, boundAt []time.Duration, appSent *int, now time.Duration) string {
	rc.mu.Lock()
	calls := append([]call{}, rc.calls...)
	nfb, napp := rc.next, *appSent
	boundAt = append([]time.Duration{}, boundAt...)
	rc.mu.Unlock()
	// Expected: per event the calls of its bindings.
	type exp struct {
		c        call
		required bool
		ev       int
	}
	var exps []exp
	acks, broken, optional := 0, false, false
	nev := 0
	for i, t := range s.Items {
		if t.Msg == nil {
			if t.Name == "undecodable" {
				optional = true
			} else if t.Raw != nil {
				broken = true
			}
			continue
		}
		if broken {
			break
		}
		if t.Msg.FlowMessage == rwp.OutboundMessage_PING && !optional {
			acks++
		}
		for _, e := range t.Msg.Events {
			nev++
			for b, bd := range s.Binds {
				if bd.ID != e.HWCID {
					continue
				}
				if k, ok := expected(e, bd.Kind); ok {
					k.Tag = bd.Tag
					req := boundAt[b] < 0 || boundAt[b]+10*ms <= arrive[i]
					// Whether a binding replaces an earlier one of the same kind and id is free.
					for _, o := range s.Binds[b+1:] {
						if o.Kind == bd.Kind && o.ID == bd.ID {
							req = false
						}
					}
					exps = append(exps, exp{k, req && !optional, nev})
				}
			}
		}
	}
	// Calls are in event order; kinds of one event in any order.
	used := make([]bool, len(exps))
	cur := 0
	for _, k := range calls {
		found := -1
		for j := range exps {
			if !used[j] && exps[j].ev >= cur && exps[j].c.same(k) {
				found = j
				break
			}
		}
		if found < 0 {
			return fmt.Sprintf("dispatch: the call %v has no event for it (any more); calls %.400v", k, calls)
		}
		for j := range exps {
			if !used[j] && exps[j].required && exps[j].ev < exps[found].ev {
				return fmt.Sprintf("dispatch: event %d was not dispatched to %v before %v", exps[j].ev, exps[j].c, k)
			}
		}
		used[found] = true
		cur = exps[found].ev
	}
	for j := range exps {
		if !used[j] && exps[j].required {
			return fmt.Sprintf("dispatch: event %d of %d was never dispatched to %v (%d calls)", exps[j].ev, nev, exps[j].c, len(calls))
		}
	}
	if broken || optional {
		return ""
	}
	for _, t := range s.Items {
		if t.Fin {
			return ""
		}
	}
	a, pings, ids, cmds, v := s.count(conn.Bytes())
	if v != "" {
		return v
	}
	if a != acks {
		return fmt.Sprintf("ping: %d pings were answered with %d acknowledges", acks, a)
	}
	if cmds != 1 {
		return fmt.Sprintf("init: the panel was asked %d times for its information", cmds)
	}
	if pings > int(now/sec)+1 {
		return fmt.Sprintf("ping: %d pings were sent in %v", pings, now)
	}
	for i := 0; i < nfb; i++ {
		if ids[i] != 1 {
			return fmt.Sprintf("feedback: message %d of %d of the handlers reached the panel %d times", i, nfb, ids[i])
		}
	}
	for i := 0; i < napp; i++ {
		if ids[500000+i] != 1 {
			return fmt.Sprintf("feedback: message %d of %d of the application reached the panel %d times", i, napp, ids[500000+i])
		}
	}
	if conn.IsClosed() {
		return "connection: the connection was given up"
	}
	return ""
}

// --- scenarios ------------------------------------------------------------------

func ev(id, k int) *rwp.HWCEvent {
	e := &rwp.HWCEvent{HWCID: uint32(id)}
	switch k % 6 {
	case 0:
		e.Binary = &rwp.BinaryEvent{Pressed: true}
	case 1:
		e.Pulsed = &rwp.PulsedEvent{Value: int32(k/6%2*2 - 1)}
	case 2:
		e.Absolute = &rwp.AbsoluteEvent{Value: uint32(k % 1000)}
	case 3:
		e.Speed = &rwp.SpeedEvent{Value: int32(-k % 500)}
	case 4:
		e.Binary = &rwp.BinaryEvent{Edge: rwp.BinaryEvent_EdgeID([]int{1, 2, 4, 8, 16}[k%5])}
	case 5:
		e.Pulsed = &rwp.PulsedEvent{Value: int32(k % 7)}
	}
	return e
}

func msg(es ...*rwp.HWCEvent) *rwp.OutboundMessage { return &rwp.OutboundMessage{Events: es} }

var allKinds = []string{"binary", "pulsed", "absolute", "intensity", "trigger"}

func bindAll(at time.Duration, ids ...uint32) (out []bind) {
	for _, id := range ids {
		for _, k := range allKinds {
			out = append(out, bind{k, id, at, 0})
		}
	}
	return
}

var modes = []string{"binary", "rdy", "silent"}

func initialisation() (out []*ex.Scenario) {
	times := []time.Duration{-1, 5 * ms, 1800 * ms, 2300 * ms}
	pi := func(m, s, n string) *rwp.OutboundMessage {
		return &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: m, Serial: s, Name: n}}
	}
	pt := func(j, v string) *rwp.OutboundMessage {
		return &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: j, Svgbase: v}}
	}
	for _, mode := range modes {
		for a := range times {
			for b := range times {
				for d := range times {
					for e := range times {
						var its []item
						ok := true
						last := time.Duration(0)
						for k, t := range []int{a, b, d, e} {
							at := times[t]
							if at < 0 {
								ok = false
								continue
							}
							if at > 2*sec {
								ok = false
							}
							last = max(last, at)
							m := []*rwp.OutboundMessage{pi("RCP", "", ""), pi("", "S1", ""), pt(topoJSON, ""), pt("", topoSVG)}[k]
							its = append(its, item{At: at + time.Duration(k)*ms, Msg: m})
						}
						its = append(its, item{At: 3 * ms, Msg: pi("", "", "N1")})
						w := 0
						if ok {
							w = 1
						}
						out = append(out, (&scen{Mode: mode, Init: its, WantInit: w}).scenario("arrival times", 0))
						if ok {
							// The panel is lost, or the application gives up, afterwards or before.
							for _, x := range []time.Duration{-3 * ms, 30 * ms} {
								if last+x < 0 {
									continue
								}
								w := 0
								if x > 0 {
									w = 1
								}
								fin := append(append([]item{}, its...), item{At: last + 3*ms + x, Fin: true})
								if x < 0 {
									fin = nil
									for _, i := range its {
										if i.At < last {
											fin = append(fin, i)
										}
									}
									fin = append(fin, item{At: last - ms, Fin: true})
								}
								out = append(out, (&scen{Mode: mode, Init: fin, WantInit: w, Items: []item{}}).scenario("lost panel", 0))
								out = append(out, (&scen{Mode: mode, Init: its, WantInit: w, CancelInit: last + 3*ms + x - map[bool]time.Duration{true: 3 * ms, false: 0}[x < 0]}).scenario("cancelled", 0))
							}
							out = append(out, (&scen{Mode: mode, Init: append(append([]item{}, its...), item{At: last + 3*ms, Fin: true}), WantInit: 1}).scenario("lost at once after the information", 0))
						} else {
							out = append(out, (&scen{Mode: mode, Init: append(append([]item{}, its...), item{At: 1900 * ms, Fin: true}), WantInit: 0}).scenario("lost panel", 0))
						}
					}
				}
			}
		}
		// combined messages, segmented, in one segment
		m := &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING, PanelInfo: &rwp.PanelInfo{Model: "RCP", Serial: "S1"}, PanelTopology: &rwp.PanelTopology{Json: topoJSON, Svgbase: topoSVG}}
		for _, cut := range []int{0, 1, 3, 4, 5, 20, 100} {
			out = append(out, (&scen{Mode: mode, Init: []item{{At: 5 * ms, Msg: m, Cut: cut, Gap: 900 * ms}}, WantInit: 1}).scenario("one message", 0))
		}
		m2 := proto.Clone(m).(*rwp.OutboundMessage)
		m2.FlowMessage = rwp.OutboundMessage_ACK
		out = append(out, (&scen{Mode: mode, Init: []item{{At: 5 * ms, Msg: m2}}, WantInit: 1}).scenario("one message", 0))
		its := []item{{At: 5 * ms, Msg: pi("A", "S", "")}, {At: 5 * ms, Msg: pt(topoJSON, topoSVG)}}
		b := vk.Pick(c, 1, 2)
		out = append(out, (&scen{Mode: mode, Init: its, WantInit: 1}).scenario("schedules", b))
		out = append(out, (&scen{Mode: mode, Init: its[:1], WantInit: 0}).scenario("schedules", 1))
		out = append(out, (&scen{Mode: mode, Init: append(append([]item{}, its...), item{At: 5 * ms, Fin: true}), WantInit: 1}).scenario("schedules, lost panel", b))
		out = append(out, (&scen{Mode: mode, Init: append(append([]item{}, its[:1]...), item{At: 5 * ms, Fin: true}), WantInit: 0}).scenario("schedules, lost panel", 1))
	}
	return
}

func histories() (out []*ex.Scenario) {
	th := c.Thorough()
	add := func(g string, s *scen) { out = append(out, s.scenario(g, 0)) }
	for _, mode := range modes {
		// all short histories over an alphabet, with all kinds bound to 1 and some to 2
		alphabet := []*rwp.OutboundMessage{
			msg(ev(1, 0)), msg(ev(1, 4)), msg(ev(2, 1)), msg(ev(1, 2)), msg(ev(1, 3)), msg(ev(9, 0)),
			{FlowMessage: rwp.OutboundMessage_PING},
			{FlowMessage: rwp.OutboundMessage_ACK},
			{PanelInfo: &rwp.PanelInfo{Model: "Other", Name: "N2"}},
			{PanelInfo: &rwp.PanelInfo{Serial: "S2"}},
			{PanelTopology: &rwp.PanelTopology{Json: strings.ReplaceAll(topoJSON, `"id":2`, `"id":7`)}},
			{PanelTopology: &rwp.PanelTopology{Json: `{"HWc":[{"id":4}],"typeIndex":{"9":{"w":1}}}`, Svgbase: "<svg></svg>"}},
			{PanelTopology: &rwp.PanelTopology{Svgbase: "<svg>2</svg>"}},
			{HWCavailability: map[uint32]uint32{1: 2, 5: 0}},
			{HWCavailability: map[uint32]uint32{1: 0}},
		}
		if mode == "binary" {
			alphabet = append(alphabet,
				msg(ev(1, 0), ev(2, 5), ev(1, 1), ev(1, 10)),
				&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING, Events: []*rwp.HWCEvent{ev(1, 0)}},
				&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK, Events: []*rwp.HWCEvent{ev(1, 5)}, PanelInfo: &rwp.PanelInfo{Model: "M3"}},
				&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_RDY, Events: []*rwp.HWCEvent{ev(2, 2)}},
				msg(&rwp.HWCEvent{HWCID: 1, Binary: &rwp.BinaryEvent{Pressed: true, Edge: 16}, Pulsed: &rwp.PulsedEvent{Value: -3}, Absolute: &rwp.AbsoluteEvent{}, Speed: &rwp.SpeedEvent{Value: 4}}),
				msg(&rwp.HWCEvent{HWCID: 1}),
				msg(&rwp.HWCEvent{Binary: &rwp.BinaryEvent{}}),
				&rwp.OutboundMessage{})
		}
		binds := append(bindAll(-1, 1), bind{"pulsed", 2, -1, 0}, bind{"absolute", 2, -1, 0}, bind{"trigger", 0, -1, 0})
		for i, a := range alphabet {
			for j, b := range alphabet {
				for _, gap := range []time.Duration{0, 30 * ms} {
					add("two messages", &scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: a}, {At: 40*ms + gap, Msg: b}}, Binds: binds})
				}
				add("two messages, segmented", &scen{Mode: mode, Segment: 1, Items: []item{{At: 40 * ms, Msg: a}, {At: 40 * ms, Msg: b}}, Binds: binds})
				if th || (i+j)%3 == 0 {
					for _, d := range alphabet {
						add("three messages", &scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: a}, {At: 40 * ms, Msg: b}, {At: 70 * ms, Msg: d}}, Binds: binds, Feedback: 0})
						add("three messages, feedback", &scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: a}, {At: 40 * ms, Msg: b}, {At: 40 * ms, Msg: d}}, Binds: binds, Feedback: 1, FBKind: "led"})
					}
				}
			}
		}
		// every binding kind alone
		for _, k := range allKinds {
			var its []item
			for i := 0; i < 24; i++ {
				its = append(its, item{At: 40*ms + time.Duration(i)*ms, Msg: msg(ev(1+(i+i/6)%2, i*7))})
			}
			add("single bindings", &scen{Mode: mode, Items: its, Binds: []bind{{k, 1, -1, 0}}})
			add("single bindings", &scen{Mode: mode, Items: its, Binds: []bind{{k, 2, -1, 0}}, Feedback: 2, FBKind: "text"})
		}
		// bursts of events whose handlers send feedback
		for _, nev := range []int{1, 9, 10, 11, 12, 25, 100, 400} {
			for _, fb := range []int{0, 1, 2, 9, 10, 11, 12, 30} {
				if nev*fb > 4000 {
					continue
				}
				for _, fk := range []string{"led", "index", "text", "struct", "raw"} {
					if fk != "raw" && fb != 2 {
						continue
					}
					var its []item
					for i := 0; i < nev; i++ {
						its = append(its, item{At: 40 * ms, Msg: msg(ev(1+i%3, i%4))})
					}
					bs := bindAll(-1, 1, 2)
					add("bursts", &scen{Mode: mode, Items: its, Binds: bs, Feedback: fb, FBKind: fk})
					add("bursts, one segment", &scen{Mode: mode, Items: its, Segment: 1 << 20, Binds: bs, Feedback: fb, FBKind: fk})
					if fk != "raw" {
						continue
					}
					add("bursts, small segments", &scen{Mode: mode, Items: its, Segment: 7, Binds: bs, Feedback: fb, FBKind: fk, Rebind: true})
					add("bursts, application sending", &scen{Mode: mode, Items: its, Binds: bs, Feedback: fb, FBKind: fk, App: 500 * time.Microsecond})
					add("bursts, panel stalls", &scen{Mode: mode, Items: its, Binds: bs, Feedback: fb, FBKind: fk, Stall: []time.Duration{39 * ms, 3 * sec}})
					withPings := []item{}
					for i, t := range its {
						withPings = append(withPings, t)
						if i%2 == 0 {
							withPings = append(withPings, item{At: 40 * ms, Msg: &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}})
						}
					}
					add("bursts with pings", &scen{Mode: mode, Items: withPings, Binds: bs, Feedback: fb, FBKind: fk})
					// around the client's own ping
					for k := range its {
						its[k].At = 995*ms + time.Duration(k)*ms
					}
					add("bursts around the client's ping", &scen{Mode: mode, Items: its, Binds: bs, Feedback: fb, FBKind: fk})
					add("bursts around the client's ping", &scen{Mode: mode, Items: its, Binds: bs, Feedback: fb, FBKind: fk, Stall: []time.Duration{990 * ms, 2500 * ms}})
				}
			}
		}
		for _, nev := range []int{3, 30, 100} {
			for _, slow := range []time.Duration{ms, 50 * ms, 1100 * ms} {
				if time.Duration(nev)*slow > 12*sec {
					continue
				}
				var its []item
				for i := 0; i < nev; i++ {
					its = append(its, item{At: 40 * ms, Msg: msg(ev(1+i%3, i%4))})
				}
				// The end of the history leaves time for all handlers.
				its = append(its, item{At: time.Duration(nev)*slow*2 + sec, Msg: &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}})
				add("slow handlers", &scen{Mode: mode, Items: its, Binds: bindAll(-1, 1, 2), Feedback: 1, Slow: slow, Look: true, Rebind: true})
			}
		}
		for _, slow := range []time.Duration{7 * sec, 65 * sec} {
			var its []item
			for i := 0; i < 14; i++ {
				its = append(its, item{At: 40 * ms, Msg: msg(ev(1, i%2))})
			}
			its = append(its, item{At: 14*slow + sec, Msg: &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}})
			add("slow handlers", &scen{Mode: mode, Items: its, Binds: []bind{{"trigger", 1, -1, 0}}, Feedback: 1, Slow: slow})
		}
		for _, nev := range []int{1, 10, 40} {
			var its []item
			for i := 0; i < nev; i++ {
				its = append(its, item{At: 40 * ms, Msg: msg(ev(1+i%3, i%4))}, item{At: 40 * ms, Msg: alphabet[6+i%9]})
			}
			add("handlers that read the state and draw", &scen{Mode: mode, Items: its, Binds: bindAll(-1, 1, 2), Feedback: 1, FBKind: "image", Look: true, Rebind: true})
		}
		// many events in one message
		for _, n := range []int{9, 33, 65, 101, 129, 257, 1001, 2100} {
			for _, per := range []int{1, 2, 7} {
				var evs []*rwp.HWCEvent
				for i := 0; i < n; i++ {
					evs = append(evs, ev(1+i%per, i/per))
				}
				add("many events in one message", &scen{Mode: mode, Binds: bindAll(-1, 1, 2, 7), Items: []item{{At: 40 * ms, Msg: msg(evs...)}, {At: 90 * ms, Msg: msg(ev(2, 0), ev(1, 1))}}})
			}
		}
		// many components
		{
			var its []item
			var bs []bind
			av := map[uint32]uint32{}
			for i := 1; i <= 500; i++ {
				bs = append(bs, bindAll(-1, uint32(i*131))...)
				av[uint32(i)] = uint32(i % 3)
				its = append(its, item{At: 40 * ms, Msg: msg(ev(i*131, i))})
			}
			big := &topology.Topology{TypeIndex: map[uint32]topology.TopologyHWcTypeDef{1: {W: 4, In: "b"}}}
			for i := 1; i <= 500; i++ {
				big.HWc = append(big.HWc, topology.TopologyHWcomponent{Id: uint32(i), Type: 1, Txt: fmt.Sprint("c", i)})
			}
			bj, _ := json.Marshal(big)
			its = append(its, item{At: 45 * ms, Msg: &rwp.OutboundMessage{HWCavailability: av, PanelTopology: &rwp.PanelTopology{Json: string(bj), Svgbase: "<svg>big</svg>"}}})
			add("many components", &scen{Mode: mode, Items: its, Binds: bs})
			add("many components", &scen{Mode: mode, Items: its, Binds: bs, Segment: 1000})
			for i := range its[:500] {
				its[i].At += 20 * ms
			}
			its = append([]item{its[500]}, its[:500]...)
			add("many components", &scen{Mode: mode, Items: its, Binds: bs, Feedback: 1})
		}
		// extreme values and ids
		{
			var its []item
			ids := []uint32{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1}
			for i, id := range ids {
				for k, v := range []int64{0, 1, -1, 127, -128, 128, 255, 256, 500, -500, 1000, 32767, -32768, 65535, 65536, 1<<31 - 1, -1 << 31, 1<<32 - 1} {
					if v >= -1<<31 && v < 1<<31 {
						its = append(its, item{At: 40*ms + time.Duration(i)*ms, Msg: msg(&rwp.HWCEvent{HWCID: id, Pulsed: &rwp.PulsedEvent{Value: int32(v)}})},
							item{At: 40*ms + time.Duration(i)*ms, Msg: msg(&rwp.HWCEvent{HWCID: id, Speed: &rwp.SpeedEvent{Value: int32(v)}})})
					}
					if v >= 0 {
						its = append(its, item{At: 40*ms + time.Duration(i)*ms, Msg: msg(&rwp.HWCEvent{HWCID: id, Absolute: &rwp.AbsoluteEvent{Value: uint32(v)}})})
					}
					e := &rwp.BinaryEvent{Pressed: k%2 == 0, Edge: rwp.BinaryEvent_EdgeID([]int{0, 1, 2, 4, 8, 16}[k/2%6])}
					its = append(its, item{At: 40*ms + time.Duration(i)*ms, Msg: msg(&rwp.HWCEvent{HWCID: id, Binary: e})})
				}
			}
			add("extreme values", &scen{Mode: mode, Items: its, Binds: bindAll(-1, ids...)})
			for _, id := range ids[1:] {
				add("extreme values", &scen{Mode: mode, Items: its, Binds: bindAll(-1, id), Feedback: 1, FBKind: "led"})
			}
		}
		// binding again
		for _, k := range allKinds {
			for _, at := range []time.Duration{-1, 20 * ms, 45 * ms} {
				var its []item
				for i := 0; i < 40; i++ {
					its = append(its, item{At: 40*ms + time.Duration(i)*ms, Msg: msg(ev(1+(i+i/6)%2, i))})
				}
				add("binding again", &scen{Mode: mode, Items: its, Binds: []bind{{k, 1, -1, 0}, {k, 2, -1, 0}, {k, 1, at, 1}}, Feedback: 1})
			}
		}
		// registration while events are flowing
		for at := 40 * ms; at <= 60*ms; at += vk.Pick(c, 2*ms, 500*time.Microsecond) {
			var its []item
			for i := 0; i < 40; i++ {
				its = append(its, item{At: 40*ms + time.Duration(i)*ms, Msg: msg(ev(1+(i+i/6)%2, i))})
			}
			add("registration", &scen{Mode: mode, Items: its, Binds: append(bindAll(at, 1), bindAll(-1, 2)...), Feedback: 1, FBKind: "led", Rebind: true, Getters: true})
		}
		// long histories of updates
		var its []item
		for i := 0; i < 30; i++ {
			its = append(its, item{At: 40*ms + time.Duration(i)*30*ms, Msg: alphabet[(i*5)%len(alphabet)]})
		}
		add("updates", &scen{Mode: mode, Items: its, Binds: binds, Getters: true})
		// idle for hours
		add("idle", &scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0))}, {At: 400 * sec, Msg: msg(ev(1, 1))}}, Binds: binds})
		// segmentation of one frame with pauses
		for cut := 1; cut < 12; cut++ {
			for _, g := range []time.Duration{ms, 1500 * ms} {
				add("segmented", &scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0)), Cut: cut, Gap: g}, {At: 3 * sec, Msg: msg(ev(1, 2)), Cut: cut / 2, Gap: g}}, Binds: binds})
			}
		}
		// sizes
		for _, n := range []int{100, 4095, 4096, 65536, 499990} {
			add("sizes", &scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0))}, {At: 41 * ms, Msg: &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: "<svg>" + strings.Repeat("x", n-20) + "</svg>"}}}, {At: 42 * ms, Msg: msg(ev(1, 2))}}, Binds: binds})
		}
	}
	return
}

func header(n uint32) []byte { return binary.LittleEndian.AppendUint32(nil, n) }

// large is a message of n bytes with an event.
func large(n int) *rwp.OutboundMessage {
	m := msg(ev(1, 0))
	m.Message = &rwp.Message{Message: strings.Repeat("m", n-100)}
	m.Message.Message += strings.Repeat("m", n-proto.Size(m))
	if proto.Size(m) != n {
		panic(fmt.Sprint(n, proto.Size(m)))
	}
	return m
}

func malformed() (out []*ex.Scenario) {
	add := func(g string, s *scen) { out = append(out, s.scenario(g, 0)) }
	binds := append(bindAll(-1, 1), bindAll(-1, 2)...)
	tail := append(cl.OutFrame(msg(ev(1, 0))), cl.OutFrame(msg(ev(2, 1)))...)
	for pos := 0; pos <= 13; pos++ {
		for _, lim := range []uint32{500000, 500001, 600000, 1 << 20, 1 << 24, 1 << 31, 1<<32 - 4, 1<<32 - 1, 0x0a59_4452} {
			for _, gap := range []time.Duration{0, ms, 30 * ms} {
				for _, fb := range []int{0, 3, 12} {
					var its []item
					for i := 0; i < pos; i++ {
						its = append(its, item{At: 40*ms + time.Duration(i)*gap, Msg: msg(ev(1+(i+i/6)%2, i))})
					}
					at := 40*ms + time.Duration(pos)*gap
					its = append(its, item{At: at, Raw: append(header(lim), tail...)}, item{At: at + 10*ms, Msg: msg(ev(1, 2))}, item{At: at + 3*sec, Msg: msg(ev(2, 3))})
					add("over-limit frames", &scen{Mode: "binary", Items: its, Binds: binds, Feedback: fb})
					if fb == 3 {
						add("over-limit frames, one segment", &scen{Mode: "binary", Items: its, Segment: 1 << 20, Binds: binds, Feedback: fb})
						add("over-limit frames, small segments", &scen{Mode: "binary", Items: its, Segment: 3, Binds: binds, Feedback: fb})
					}
				}
			}
		}
		// the whole payload is there, and a message
		for _, lim := range []int{499998, 499999, 500000, 500001, 500010, 700000} {
			for _, seg := range []int{0, 4096, 1 << 21} {
				var its []item
				for i := 0; i < pos; i++ {
					its = append(its, item{At: 40 * ms, Msg: msg(ev(1+(i+i/6)%2, i))})
				}
				its = append(its, item{At: 40 * ms, Raw: cl.OutFrame(large(lim))}, item{At: 40 * ms, Msg: msg(ev(1, 2))}, item{At: 50 * ms, Msg: msg(ev(2, 3))})
				if lim < 500000 {
					its[pos] = item{At: 40 * ms, Msg: large(lim)}
				}
				if pos%3 == 0 {
					add("frames about the limit", &scen{Mode: "binary", Items: its, Segment: seg, Binds: binds, Feedback: pos % 2})
				}
			}
		}
		// the payload stops
		for _, claim := range []int{5, 20, 1000, 499999} {
			for _, have := range []int{0, 1, 4} {
				var its []item
				for i := 0; i < pos; i++ {
					its = append(its, item{At: 40 * ms, Msg: msg(ev(1+(i+i/6)%2, i))})
				}
				raw := append(header(uint32(claim)), tail[:have]...)
				its = append(its, item{At: 40 * ms, Raw: raw}, item{At: 40*ms + 2500*ms, Msg: msg(ev(1, 2))}, item{At: 5 * sec, Msg: msg(ev(2, 3))})
				add("unfinished frames", &scen{Mode: "binary", Items: its, Binds: binds, Feedback: 1})
				its2 := append(append([]item{}, its[:pos]...), item{At: 40 * ms, Raw: raw}, item{At: 100 * ms, Fin: true})
				add("unfinished frames, lost panel", &scen{Mode: "binary", Items: its2, Binds: binds, Feedback: 1})
			}
		}
		// the line stops
		for k, line := range []string{"HWC#1=Abs:1234", "HWC#1.4=Down", "HWC#2=Enc:-12", "HWC#1=Press", "map=1:1"} {
			for cut := 1; cut <= len(line); cut++ {
				if pos != k*3 {
					break
				}
				var its []item
				for i := 0; i < pos; i++ {
					its = append(its, item{At: 40 * ms, Msg: msg(ev(1+(i+i/6)%2, i))})
				}
				its = append(its, item{At: 40 * ms, Raw: []byte(line[:cut])}, item{At: 100 * ms, Fin: true})
				for _, mode := range modes[1:] {
					add("unfinished lines, lost panel", &scen{Mode: mode, Items: its, Binds: binds, Feedback: 1})
				}
			}
		}
		// payloads that are no message
		for _, p := range [][]byte{{0xff}, {8}, {8, 0x80}, {0x42, 5, 1}, {0x42, 2, 0x0a}, {0x42, 4, 0x08, 1, 0x12, 9}, {7, 7, 7}, {0x12, 3, 0x0a, 1, 0xff}} {
			var its []item
			for i := 0; i < pos; i++ {
				its = append(its, item{At: 40 * ms, Msg: msg(ev(1+(i+i/6)%2, i))})
			}
			its = append(its, item{At: 40 * ms, Raw: cl.Frame(p), Name: "undecodable"}, item{At: 45 * ms, Msg: msg(ev(1, 2))})
			add("undecodable payloads", &scen{Mode: "binary", Items: its, Binds: binds[:1], Feedback: 1})
		}
		// the panel is lost after a history
		for _, mode := range modes {
			for _, fb := range []int{0, 1, 12} {
				var its []item
				for i := 0; i < pos*3; i++ {
					its = append(its, item{At: 40 * ms, Msg: msg(ev(1+(i+i/6)%2, i))})
				}
				its = append(its, item{At: 40 * ms, Fin: true})
				add("lost panel", &scen{Mode: mode, Items: its, Binds: binds, Feedback: fb})
			}
		}
	}
	return
}

// small are the histories whose schedules are explored.
func small(b2 bool) (out []*scen) {
	ping := &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}
	for _, mode := range modes {
		if mode == "silent" && b2 {
			continue
		}
		one := []bind{{"binary", 1, -1, 0}, {"trigger", 2, -1, 0}}
		out = append(out,
			&scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0))}, {At: 40 * ms, Msg: msg(ev(2, 1))}}, Binds: one, Feedback: 1},
			&scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0))}, {At: 40 * ms, Msg: ping}, {At: 40 * ms, Msg: msg(ev(1, 4))}}, Binds: one, Feedback: 1},
			&scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0))}, {At: 45 * ms, Msg: msg(ev(2, 1))}, {At: 60 * ms, Msg: msg(ev(2, 1))}}, Binds: []bind{{"binary", 1, 40 * ms, 0}, {"trigger", 2, 40 * ms, 0}}, Feedback: 1},
			&scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0))}, {At: 40 * ms, Msg: &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Name: "N2"}, HWCavailability: map[uint32]uint32{1: 1}}}, {At: 40 * ms, Msg: &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: topoJSON}}}}, Binds: one, Getters: true, Rebind: true},
			&scen{Mode: mode, Items: []item{{At: 995 * ms, Msg: msg(ev(1, 0))}, {At: 996 * ms, Msg: ping}}, Binds: one, Feedback: 12},
			&scen{Mode: mode, Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0))}, {At: 40 * ms, Msg: msg(ev(2, 1))}}, Binds: one, Feedback: 1, App: 5 * ms},
		)
	}
	out = append(out,
		&scen{Mode: "binary", Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0))}, {At: 40 * ms, Msg: msg(ev(2, 1))}, {At: 40 * ms, Raw: append(header(500000), cl.OutFrame(msg(ev(1, 0)))...)}, {At: 41 * ms, Msg: msg(ev(1, 0))}}, Binds: []bind{{"binary", 1, -1, 0}, {"trigger", 2, -1, 0}}, Feedback: 1},
		&scen{Mode: "binary", Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0))}, {At: 40 * ms, Raw: header(50)}, {At: 2500 * ms, Msg: msg(ev(1, 0))}}, Binds: []bind{{"binary", 1, -1, 0}}},
		&scen{Mode: "binary", Items: []item{{At: 40 * ms, Msg: msg(ev(1, 0))}, {At: 40 * ms, Msg: msg(ev(2, 1))}, {At: 40 * ms, Fin: true}}, Binds: []bind{{"binary", 1, -1, 0}, {"trigger", 2, -1, 0}}, Feedback: 1})
	return
}

func interleavings() (out []*ex.Scenario) {
	for i, s := range small(false) {
		b := 1
		if c.Thorough() || i < 2 || i == 6 || i == 7 || i >= 18 {
			b = 2
		}
		out = append(out, s.scenario("schedules", b))
	}
	return
}

func raced() (out []*ex.Scenario) {
	for i, s := range small(true) {
		b := 1
		if c.Thorough() && (i == 0 || i == 2 || i == 8 || i >= 12) {
			b = 2
		}
		out = append(out, s.scenario("schedules", b))
	}
	return
}

// situations of one of two clients; v tells the two apart.
func situations(mode string, v int, off time.Duration) (out []*scen) {
	ping := &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}
	at := 40*ms + off
	n := fmt.Sprintf("N%d", v)
	binds := append(bindAll(-1, 1), bind{"binary", 2, -1, v}, bind{"trigger", uint32(4 + v), -1, v})
	if v == 1 {
		binds = []bind{{"binary", 1, -1, 7}, {"trigger", 2, -1, 8}, {"pulsed", 5, -1, 9}, {"absolute", 6, -1, 1}}
	}
	add := func(s *scen) {
		s.Mode, s.Binds = mode, binds
		out = append(out, s)
	}
	add(&scen{Items: []item{{At: at, Msg: msg(ev(1, v))}, {At: at, Msg: msg(ev(2, 1))}, {At: at + 10*ms, Msg: msg(ev(5, 4))}}, Feedback: 1})
	add(&scen{Items: []item{{At: at, Msg: ping}, {At: at, Msg: msg(ev(1, 0))}, {At: at + 5*ms, Msg: ping}, {At: at + 5*ms, Msg: msg(ev(6, 2))}}, Feedback: 1, FBKind: "led"})
	for _, cut := range []int{2, 5} {
		add(&scen{Items: []item{{At: at, Msg: msg(ev(1, 2+v)), Cut: cut, Gap: 20 * ms}, {At: at + 30*ms, Msg: msg(ev(2, 1)), Cut: cut, Gap: 20 * ms}}})
	}
	add(&scen{Items: []item{{At: at, Msg: &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Name: n, Model: n + "M"}, HWCavailability: map[uint32]uint32{1: uint32(v), 9: uint32(v + 2)}}},
		{At: at + 30*ms, Msg: &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: strings.ReplaceAll(topoJSON, `"id":2`, fmt.Sprintf(`"id":%d`, 7+v)), Svgbase: "<svg>" + n + "</svg>"}}},
		{At: at + 60*ms, Msg: &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Serial: n + "S"}, HWCavailability: map[uint32]uint32{2: uint32(v)}}},
		{At: at + 90*ms, Msg: msg(ev(1, 0))}}, Look: true})
	add(&scen{Items: []item{{At: at, Msg: msg(ev(1, 0))}, {At: at + 3*ms, Msg: msg(ev(1, 1))}, {At: at + 6*ms, Fin: true}}, Feedback: 1})
	add(&scen{Items: []item{{At: at, Msg: msg(ev(1, 0))}, {At: at + 20*ms, Msg: msg(ev(1, 1))}, {At: at + 40*ms, Msg: msg(ev(2, 1))}}, Feedback: 12, Rebind: true, App: 9 * ms})
	if mode == "binary" {
		add(&scen{Items: []item{{At: at, Msg: large(20000 + v*7), Cut: 9000, Gap: 20 * ms}, {At: at + 30*ms, Msg: msg(ev(2, 1))}}})
		add(&scen{Items: []item{{At: at, Msg: msg(ev(1, 0))}, {At: at + 4*ms, Raw: header(500000 + uint32(v))}, {At: at + 8*ms, Msg: msg(ev(1, 0))}}})
	}
	return
}

func beside(race bool) (out []*ex.Scenario) {
	for mi, ma := range modes[:2] {
		for mj, mb := range modes[:2] {
			for oi, off := range []time.Duration{0, 10 * ms} {
				as, bs := situations(ma, 0, 0), situations(mb, 1, off)
				for i := range as {
					for j := range bs {
						a := *as[i]
						a.Beside = bs[j]
						b := 0
						if race {
							if oi > 0 || (i+j+mi+mj)%vk.Pick(c, 3, 1) != 0 {
								continue
							}
						} else if oi == 0 && i < 5 && j < 5 && i != 4 && mi+mj == 0 || c.Thorough() && oi == 0 {
							b = 1
						}
						out = append(out, a.scenario("two clients", b))
					}
				}
			}
		}
	}
	// one that does not come up beside one that works
	for mi, mode := range modes[:2] {
		for k := range defaultInit() {
			for _, j := range []int{0, 4, 5} {
				bad := &scen{Mode: mode, Init: append(append([]item{}, defaultInit()[:k]...), item{At: 3 * ms, Msg: &rwp.OutboundMessage{HWCavailability: map[uint32]uint32{1: 7}}}), WantInit: 0}
				a := *situations(mode, mi, 0)[j]
				a.Beside = bad
				out = append(out, a.scenario("two clients, one without its information", 0))
			}
		}
	}
	return
}

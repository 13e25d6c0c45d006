// Package cl runs the reconnecting client against a scripted panel inside a
// bubble and records everything an application can observe.
package cl

import (
	"context"
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"

	"verif.local/harness/ex"
	"verif.local/harness/sim"
)

// Ev is a callback of the client.
type Ev struct {
	T      time.Duration
	Kind   string // connect, disconnect
	Err    string
	Binary bool
	Cancel bool
	Conn   net.Conn
}

func (e Ev) String() string {
	if e.Kind == "connect" {
		return fmt.Sprintf("%v connect(%q, binary=%v)", e.T, e.Err, e.Binary)
	}
	return fmt.Sprintf("%v disconnect(%v)", e.T, e.Cancel)
}

// Delivery is one message received on msgsFromPanel.
type Delivery struct {
	T time.Duration
	M *rwp.OutboundMessage
}

// Opts are the application's side of a scenario.
type Opts struct {
	Cfg          *rawpanel.ConnectToPanelConfig
	SlowConsumer time.Duration // pause after each received list
	NoCallbacks  bool
	NoWG         bool
	SlowConnect  time.Duration // time spent in the connect callback
	SlowDisc     time.Duration
	CancelFirst  bool // cancel before the call
	Buffer       int  // capacity of the channel to the panel
	Beside       bool // another client runs beside this one
}

// Run is a running client.
type Run struct {
	X        *ex.X
	Net      *sim.Net
	To       chan []*rwp.InboundMessage
	From     chan []*rwp.OutboundMessage
	WG       *sync.WaitGroup
	cancel   context.CancelFunc
	mu       sync.Mutex
	Got      []Delivery
	Evs      []Ev
	NilMsg   bool
	Lists    int
	CancelAt time.Duration // -1: not yet
	RetAt    time.Duration
	returned bool
	beside   bool
	ret      chan struct{}
	stop     chan struct{}
	consumed chan struct{}
}

// Start runs ConnectToPanel.
func Start(x *ex.X, n *sim.Net, o Opts) *Run {
	r := &Run{X: x, Net: n, To: make(chan []*rwp.InboundMessage, o.Buffer), From: make(chan []*rwp.OutboundMessage), WG: &sync.WaitGroup{}, CancelAt: -1, beside: o.Beside,
		ret: make(chan struct{}), stop: make(chan struct{}), consumed: make(chan struct{})}
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	go func() { // consumer
		defer close(r.consumed)
		for {
			select {
			case <-r.stop:
				return
			case l := <-r.From:
				r.mu.Lock()
				r.Lists++
				for _, m := range l {
					if m == nil {
						r.NilMsg = true
						continue
					}
					r.Got = append(r.Got, Delivery{x.T(), m})
					r.X.Log("delivered %s", Short(m))
				}
				r.mu.Unlock()
				if o.SlowConsumer > 0 {
					time.Sleep(o.SlowConsumer)
				}
			}
		}
	}()
	on := func(e string, bin bool, c net.Conn) {
		ev := Ev{T: x.T(), Kind: "connect", Err: e, Binary: bin, Conn: c}
		r.mu.Lock()
		r.Evs = append(r.Evs, ev)
		r.mu.Unlock()
		x.Log("callback connect(%q, %v)", e, bin)
		if o.SlowConnect > 0 {
			time.Sleep(o.SlowConnect)
		}
	}
	off := func(c bool) {
		ev := Ev{T: x.T(), Kind: "disconnect", Cancel: c}
		r.mu.Lock()
		r.Evs = append(r.Evs, ev)
		r.mu.Unlock()
		x.Log("callback disconnect(%v)", c)
		if o.SlowDisc > 0 {
			time.Sleep(o.SlowDisc)
		}
	}
	if o.NoCallbacks {
		on, off = nil, nil
	}
	wg := r.WG
	if o.NoWG {
		wg = nil
	}
	if o.CancelFirst {
		r.Cancel()
	}
	go func() {
		rawpanel.ConnectToPanel(n.At, r.To, r.From, ctx, wg, on, off, o.Cfg)
		r.mu.Lock()
		r.RetAt, r.returned = x.T(), true
		r.mu.Unlock()
		x.Log("returned")
		close(r.ret)
	}()
	return r
}

// Cancel cancels the context (now).
func (r *Run) Cancel() {
	r.mu.Lock()
	if r.CancelAt < 0 {
		r.CancelAt = r.X.T()
	}
	r.mu.Unlock()
	r.X.Log("cancel")
	r.cancel()
}

// Messages returns what was delivered.
func (r *Run) Messages() []Delivery {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]Delivery{}, r.Got...)
}

// Events returns the callbacks so far.
func (r *Run) Events() []Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]Ev{}, r.Evs...)
}

// Returned reports whether and when the call returned.
func (r *Run) Returned() (time.Duration, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.RetAt, r.returned
}

// Stop cancels, waits up to bound for the return and the wait group, stops the
// consumer and reports what is left.
func (r *Run) Stop(bound time.Duration) string {
	r.mu.Lock()
	c := r.CancelAt
	r.mu.Unlock()
	if c < 0 {
		r.Cancel()
	}
	res := ""
	done := make(chan struct{})
	go func() {
		// The wait group is meaningful once the call has begun.
		for i := 0; i < 600 && r.Net.NumDials() == 0; i++ {
			if _, ok := r.Returned(); ok {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		r.WG.Wait()
		close(done)
	}()
	t := time.NewTimer(bound)
	select {
	case <-done:
		// The application may tear down now: nothing of the client may still run.
		if !r.beside {
			ex.Quiet()
		}
	case <-t.C:
		if _, ok := r.Returned(); ok {
			res = fmt.Sprintf("waitgroup: the call has returned but the wait group has not drained %v after cancellation", bound)
		} else {
			res = fmt.Sprintf("no-return: the call has not returned %v after cancellation", bound)
		}
	}
	t.Stop()
	if res == "" {
		t := time.NewTimer(20 * time.Second)
		select {
		case <-r.ret:
			if o := r.Net.Open(); len(o) > 0 {
				res = fmt.Sprintf("socket: connections %v are still open after the return", o)
			}
		case <-t.C:
			res = "no-return: the wait group has drained but the call has not returned"
		}
		t.Stop()
		time.Sleep(20 * time.Second) // starved goroutines show up now
		if w := ex.Noisy(); w != "" && res == "" && !r.beside {
			res = "activity: after the wait group had drained, the client still ran at " + w
		}
	}
	close(r.stop)
	<-r.consumed
	return res
}

// Short is a message as text.
func Short(m *rwp.OutboundMessage) string {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if len(b) > 24 {
		h := uint32(2166136261)
		for _, c := range b {
			h = (h ^ uint32(c)) * 16777619
		}
		return fmt.Sprintf("%x..(%d bytes, hash %08x)", b[:12], len(b), h)
	}
	return fmt.Sprintf("%x", b)
}

// SameOut compares deliveries with what was expected.
func SameOut(got []Delivery, want []*rwp.OutboundMessage) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("lost: message %d of %d was not delivered (%s)", i, len(want), Short(want[i]))
		}
		if !proto.Equal(got[i].M, want[i]) {
			for j := range want {
				if proto.Equal(got[i].M, want[j]) {
					return fmt.Sprintf("order: delivery %d is message %d: %s", i, j, Short(want[j]))
				}
			}
			return fmt.Sprintf("content: delivery %d is %s, sent was %s", i, Short(got[i].M), Short(want[i]))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("extra: %d messages were delivered, %d were sent; the first extra is %s", len(got), len(want), Short(got[len(want)].M))
	}
	return ""
}

// Frame is a length-prefixed payload.
func Frame(p []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(p))), p...)
}

// OutFrame is a message as a frame.
func OutFrame(m *rwp.OutboundMessage) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return Frame(b)
}

// Ack is the acknowledge frame of a binary panel.
var Ack = []byte{2, 0, 0, 0, 8, 2}

// Ping is the probe: a frame with an inbound ping.
var Ping = []byte{2, 0, 0, 0, 8, 1}

// EvString lists callbacks.
func EvString(es []Ev) string {
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}
	return strings.Join(s, ", ")
}

// Warm runs what the libraries initialise lazily, outside of any bubble.
func Warm() {
	sim.Install()
	m := &rwp.OutboundMessage{FlowMessage: 2, Events: []*rwp.HWCEvent{{HWCID: 1, Binary: &rwp.BinaryEvent{Pressed: true}}}}
	b, _ := proto.Marshal(m)
	proto.Unmarshal(b, &rwp.OutboundMessage{})
	i := &rwp.InboundMessage{FlowMessage: 1, States: []*rwp.HWCState{{HWCIDs: []uint32{1}, HWCText: &rwp.HWCText{Title: "x"}, HWCGfx: &rwp.HWCGfx{W: 1}}}}
	b, _ = proto.Marshal(i)
	proto.Unmarshal(b, &rwp.InboundMessage{})
	proto.Equal(m, m)
	rawpanel.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{i})
	rawpanel.RawPanelASCIIstringsToInboundMessages([]string{"HWC#1=1"})
	rawpanel.RawPanelASCIIstringsToOutboundMessages([]string{"HWC#1=Down", "_model=x", "SysStat=CPUUsage:1:", "map=1:1"})
	rawpanel.OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{m})
	_ = (&net.OpError{Op: "x", Net: "tcp", Err: net.ErrClosed}).Error()
}

// Beside runs two parts of a scenario at the same time.
func Beside(a, b func() string) string {
	ch := make(chan string, 1)
	go func() { ch <- b() }()
	v := a()
	w := <-ch
	if v != "" {
		return v
	}
	return w
}

// OtherAddr is the address of the second panel.
const OtherAddr = "10.0.0.3:9923"

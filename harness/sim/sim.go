// Package sim is an in-memory network for executions in a bubble: a scripted
// panel at the end of a connection that delivers exactly the segments it is
// told to, at the virtual times it is told to.
package sim

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sort"
	"sync"
	"syscall"
	"time"

	"verif.local/harness/ex"
)

// Write is one write of the code under test.
type Write struct {
	T    time.Duration
	Data []byte
}

// Conn is the client's end of a connection.
type Conn struct {
	mu      sync.Mutex
	rc, wc  *sync.Cond
	x       *ex.X
	N       int // number of the connection
	in      [][]byte
	eof     bool
	reset   bool
	closed  bool
	peerErr bool // writes fail
	stall   bool // the peer does not read
	rdl     time.Time
	wdl     time.Time
	rt, wt  *time.Timer

	OpenedAt time.Duration
	ClosedAt time.Duration
	Closed   bool
	Writes   []Write
	OnWrite  func(c *Conn, b []byte)
	Reads    int
	rtimeout time.Duration
}

type timeoutError struct{}

func NewConn(x *ex.X, n int) *Conn {
	c := &Conn{x: x, N: n, OpenedAt: x.T()}
	c.rc, c.wc = sync.NewCond(&c.mu), sync.NewCond(&c.mu)
	return c
}

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.LocalAddr(), Addr: c.RemoteAddr(), Err: err}
}

func (c *Conn) Read(b []byte) (int, error) {
	ex.Point()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Reads++
	for {
		if c.closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		for len(c.in) > 0 && len(c.in[0]) == 0 {
			c.in = c.in[1:]
		}
		if len(c.in) > 0 {
			n := copy(b, c.in[0])
			c.in[0] = c.in[0][n:]
			return n, nil
		}
		if c.reset {
			return 0, c.opErr("read", syscall.ECONNRESET)
		}
		if c.eof {
			return 0, io.EOF
		}
		c.rc.Wait()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	ex.Point()
	c.mu.Lock()
	for c.stall && !c.closed && !c.peerErr && (c.wdl.IsZero() || time.Now().Before(c.wdl)) {
		c.wc.Wait()
	}
	if c.closed {
		c.mu.Unlock()
		return 0, c.opErr("write", net.ErrClosed)
	}
	if c.peerErr {
		c.mu.Unlock()
		return 0, c.opErr("write", syscall.EPIPE)
	}
	if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
		c.mu.Unlock()
		return 0, c.opErr("write", os.ErrDeadlineExceeded)
	}
	d := append([]byte{}, b...)
	c.Writes = append(c.Writes, Write{c.x.T(), d})
	f := c.OnWrite
	c.mu.Unlock()
	if f != nil {
		f(c, d)
	}
	ex.Point()
	return len(b), nil
}

func (c *Conn) Close() error {
	ex.Point()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed, c.Closed, c.ClosedAt = true, true, c.x.T()
	if c.rt != nil {
		c.rt.Stop()
	}
	if c.wt != nil {
		c.wt.Stop()
	}
	c.rc.Broadcast()
	c.wc.Broadcast()
	c.x.Log("client closes connection %d", c.N)
	return nil
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 40000 + c.N}
}
func (c *Conn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 9923} }

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.rdl = t
	if c.rt != nil {
		c.rt.Stop()
		c.rt = nil
	}
	if !t.IsZero() {
		c.rt = time.AfterFunc(max(0, time.Until(t)), func() { c.mu.Lock(); c.rc.Broadcast(); c.mu.Unlock() })
	}
	c.rc.Broadcast()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.wdl = t
	if c.wt != nil {
		c.wt.Stop()
		c.wt = nil
	}
	if !t.IsZero() {
		c.wt = time.AfterFunc(max(0, time.Until(t)), func() { c.mu.Lock(); c.wc.Broadcast(); c.mu.Unlock() })
	}
	c.wc.Broadcast()
	return nil
}

// --- the panel's side ---------------------------------------------------------

// Send delivers one segment.
func (c *Conn) Send(b []byte) {
	c.mu.Lock()
	if !c.eof && !c.reset {
		c.in = append(c.in, append([]byte{}, b...))
	}
	c.rc.Broadcast()
	c.mu.Unlock()
}

// Drop ends the connection from the panel's side: an orderly close (FIN) or a reset.
func (c *Conn) Drop(reset bool) {
	c.mu.Lock()
	if reset {
		c.reset = true
	} else {
		c.eof = true
	}
	c.peerErr = true
	c.rc.Broadcast()
	c.wc.Broadcast()
	c.mu.Unlock()
}

// HalfClose sends a FIN but keeps reading.
func (c *Conn) HalfClose() {
	c.mu.Lock()
	c.eof = true
	c.rc.Broadcast()
	c.mu.Unlock()
}

// Stall makes the panel stop (or resume) reading.
func (c *Conn) Stall(on bool) {
	c.mu.Lock()
	c.stall = on
	c.wc.Broadcast()
	c.mu.Unlock()
}

// Bytes returns everything written so far.
func (c *Conn) Bytes() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	var out []byte
	for _, w := range c.Writes {
		out = append(out, w.Data...)
	}
	return out
}

// IsClosed reports whether the client closed the connection.
func (c *Conn) IsClosed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

// Unread is the number of bytes the client has not read.
func (c *Conn) Unread() (n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, s := range c.in {
		n += len(s)
	}
	return
}

// Step is one action of the panel, At after the connection was accepted.
type Step struct {
	At    time.Duration
	Data  []byte
	Drop  bool // after Data: orderly close
	Reset bool
	Stall bool
	Go    bool // end of Stall
}

// Attempt is how the panel answers one dial.
type Attempt struct {
	Delay  time.Duration // before the answer
	Refuse bool
	Steps  []Step
	Setup  func(c *Conn)
}

// Addr is where the simulated panel listens.
const Addr = "10.0.0.2:9923"

// Net answers the dials of one execution.
type Net struct {
	mu       sync.Mutex
	x        *ex.X
	Attempts []Attempt // the last one repeats
	Dials    []time.Duration
	Conns    []*Conn
	timers   []*time.Timer
	others   map[string]*Net
	At       string // address of the panel
}

// Also installs a further panel at another address.
func (n *Net) Also(address string, attempts ...Attempt) *Net {
	o := &Net{x: n.x, Attempts: attempts, At: address}
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.others == nil {
		n.others = map[string]*Net{}
	}
	n.others[address] = o
	return o
}

// New installs the network.
func New(x *ex.X, attempts ...Attempt) *Net {
	n := &Net{x: x, Attempts: attempts, At: Addr}
	cur = n
	return n
}

var cur *Net

// Install hooks the dialler; call it once, outside of any bubble.
func Install() {
	net.VerifDial = func(ctx context.Context, timeout time.Duration, network, address string) (net.Conn, error) {
		return cur.dial(ctx, timeout, network, address)
	}
}

var errRefused = errors.New("connection refused")

func (n *Net) dial(ctx context.Context, timeout time.Duration, network, address string) (net.Conn, error) {
	ex.Point()
	n.mu.Lock()
	if o := n.others[address]; o != nil {
		n.mu.Unlock()
		n = o
		n.mu.Lock()
	}
	k := len(n.Dials)
	n.Dials = append(n.Dials, n.x.T())
	a := n.Attempts[min(k, len(n.Attempts)-1)]
	n.mu.Unlock()
	n.x.Log("dial %d", k)
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 9923}, Err: err}
	}
	if address != n.At || network != "tcp" && network != "tcp4" {
		return fail(syscall.EADDRNOTAVAIL) // nobody listens anywhere else
	}
	d := a.Delay
	var err error
	if timeout > 0 && timeout < d {
		d, err = timeout, os.ErrDeadlineExceeded
	}
	if d > 0 {
		t := time.NewTimer(d)
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			return fail(ctx.Err())
		}
	} else if ctx.Err() != nil {
		return fail(ctx.Err())
	}
	if err != nil {
		return fail(err)
	}
	if a.Refuse {
		return fail(syscall.ECONNREFUSED)
	}
	n.mu.Lock()
	c := NewConn(n.x, len(n.Conns))
	n.Conns = append(n.Conns, c)
	n.mu.Unlock()
	n.x.Log("accept %d", c.N)
	if a.Setup != nil {
		a.Setup(c)
	}
	n.Play(c, a.Steps)
	return c, nil
}

// Play schedules a panel's steps from now on.
func (n *Net) Play(c *Conn, steps []Step) {
	steps = append([]Step{}, steps...)
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
	for i := 0; i < len(steps); {
		// Steps of the same instant are one event.
		j := i
		for j < len(steps) && steps[j].At == steps[i].At {
			j++
		}
		ss := steps[i:j]
		do := func() {
			for _, s := range ss {
				if s.Stall {
					c.Stall(true)
				}
				if s.Go {
					c.Stall(false)
				}
				if len(s.Data) > 0 {
					c.Send(s.Data)
				}
				if s.Drop || s.Reset {
					n.x.Log("panel drops %d", c.N)
					c.Drop(s.Reset)
				}
			}
		}
		if ss[0].At <= 0 {
			do()
		} else {
			n.mu.Lock()
			n.timers = append(n.timers, time.AfterFunc(ss[0].At, do))
			n.mu.Unlock()
		}
		i = j
	}
}

// Open returns the connections the client has not closed.
func (n *Net) Open() (out []int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, c := range n.Conns {
		if !c.IsClosed() {
			out = append(out, c.N)
		}
	}
	return
}

// Conn returns connection k or nil.
func (n *Net) Conn(k int) *Conn {
	n.mu.Lock()
	defer n.mu.Unlock()
	if k < len(n.Conns) {
		return n.Conns[k]
	}
	return nil
}

// NumDials is the number of dials so far.
func (n *Net) NumDials() int { n.mu.Lock(); defer n.mu.Unlock(); return len(n.Dials) }

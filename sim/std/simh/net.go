package simh

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

// A NetFault happens to one connection (numbered in the order of dialling).
//
//	refuse   the connection is refused
//	unreach  dialling fails after Ms
//	reset    after At bytes in direction Dir both ends get a reset
//	fin      after At bytes in direction Dir the rest is lost and the stream ends
//	stall    at byte At of direction Dir nothing more gets through for Ms
//	slow     everything in direction Dir takes Ms longer
//	tiny     direction Dir delivers at most At bytes at a time
//	hang     dialling takes Ms longer
type NetFault struct {
	Conn int    `json:"conn"`
	Kind string `json:"kind"`
	Dir  int    `json:"dir"` // 0: to the server, 1: to the client
	At   int    `json:"at"`
	Ms   int    `json:"ms"`
}

// GenNetFaults makes a list of faults for the first n connections.
func GenNetFaults(r *R, n, max int, size int) (l []NetFault) {
	for i, k := 0, r.Intn(max+1); i < k; i++ {
		f := NetFault{Conn: r.Intn(n), Kind: r.PickS("refuse", "unreach", "reset", "reset", "fin", "fin", "stall", "stall", "slow", "tiny", "hang"), Dir: r.Intn(2), Ms: r.Pick(1, 20, 90, 110, 400, 2000)}
		switch r.Intn(3) {
		case 0:
			f.At = r.Intn(40)
		case 1:
			f.At = r.Intn(400)
		default:
			f.At = r.Intn(size)
		}
		if f.Kind == "tiny" {
			f.At = r.Range(1, 30)
		}
		l = append(l, f)
	}
	return l
}

// Net is a simulated network: one host, any number of listeners.
type Net struct {
	t      *T
	faults []NetFault
	seed   uint64
	maxLat time.Duration

	mu    sync.Mutex
	ls    map[string]*listener
	conns []*conn
	nconn int
	down  bool // nothing gets through

	MinLat time.Duration // added to every latency
	Seq    func() int64  // if set, what clients do is recorded
	Dials  []*Dial
}

// A Mark says how far a stream had got at a moment.
type Mark struct {
	N   int   // bytes so far
	Seq int64 // Net.Seq at the time
	At  int64 // simulated time
}

// A Dial is what one client did and saw of its connection. It is written by the
// client's goroutines, and to be read when they have stopped or from the bubble.
type Dial struct {
	ID      int
	Addr    string
	Begin   Mark
	Err     error // of dialling
	Failed  Mark
	Out, In []byte // written, read
	OutM    []Mark
	InM     []Mark
	Over    *Mark // first error or end seen, or closed
	ByPeer  bool  // it was an error or end
}

func (n *Net) mark(k int) Mark { return Mark{k, n.Seq(), runtime.SimNow()} }

func (d *Dial) wrote(n *Net, b []byte) {
	d.Out = append(d.Out, b...)
	d.OutM = append(d.OutM, n.mark(len(d.Out)))
}

func (d *Dial) read(n *Net, b []byte) {
	d.In = append(d.In, b...)
	d.InM = append(d.InM, n.mark(len(d.In)))
}

func (d *Dial) over(n *Net, peer bool) {
	if d.Over == nil {
		m := n.mark(len(d.In))
		d.Over, d.ByPeer = &m, peer
	}
}

// InstallNet makes a network take over package net's. maxLat bounds the
// latency of a segment without faults.
func InstallNet(t *T, seed uint64, maxLat time.Duration, faults []NetFault) *Net {
	n := &Net{t: t, faults: faults, seed: seed, maxLat: maxLat, ls: map[string]*listener{}}
	net.SimListen = n.listen
	net.SimDial = n.dial
	return n
}

// Heal ends all faults that have not happened yet.
func (n *Net) Heal() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.faults = nil
}

// Uninstall gives package net its network back.
func (n *Net) Uninstall() { net.SimListen, net.SimDial = nil, nil }

func (n *Net) latency(conn, dir, seq int) time.Duration {
	if n.maxLat == 0 {
		return n.MinLat
	}
	return n.MinLat + time.Duration(Hash(n.seed, uint64(conn), uint64(dir), uint64(seq))%uint64(n.maxLat))
}

func (n *Net) fault(conn int, kind string, dir int) *NetFault {
	n.mu.Lock()
	faults := n.faults
	n.mu.Unlock()
	for i := range faults {
		f := &faults[i]
		if f.Conn == conn && f.Kind == kind && (dir < 0 || f.Dir == dir) {
			return f
		}
	}
	return nil
}

// ---- listeners ----

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type listener struct {
	n      *Net
	addr   string
	mu     sync.Mutex
	queue  []*conn
	wake   chan struct{}
	closed bool
}

func (n *Net) listen(network, address string) (net.Listener, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.ls[address] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: addr(address), Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &listener{n: n, addr: address, wake: make(chan struct{})}
	n.ls[address] = l
	n.t.Trace("listen %s", address)
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	for {
		l.mu.Lock()
		if l.closed {
			l.mu.Unlock()
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: addr(l.addr), Err: net.ErrClosed}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			l.mu.Unlock()
			return c, nil
		}
		w := l.wake
		l.mu.Unlock()
		<-w
	}
}

func (l *listener) Close() error {
	l.n.mu.Lock()
	if l.n.ls[l.addr] == l {
		delete(l.n.ls, l.addr)
	}
	l.n.mu.Unlock()
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: addr(l.addr), Err: net.ErrClosed}
	}
	l.closed = true
	close(l.wake)
	return nil
}

func (l *listener) Addr() net.Addr { return addr(l.addr) }

// Crash takes down what listens at an address: the listener is gone, its
// connections are reset.
func (n *Net) Crash(address string) {
	n.mu.Lock()
	l := n.ls[address]
	cs := append([]*conn(nil), n.conns...)
	n.mu.Unlock()
	if l == nil {
		return
	}
	l.Close()
	for _, c := range cs {
		if string(c.local) == address {
			c.reset()
		}
	}
}

// Listening says whether something listens at the address.
func (n *Net) Listening(address string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.ls[address] != nil
}

// ---- dialling ----

func (n *Net) dial(ctx context.Context, network, address string) (net.Conn, error) {
	n.mu.Lock()
	id := n.nconn
	n.nconn++
	var dl *Dial
	if n.Seq != nil {
		dl = &Dial{ID: id, Addr: address, Begin: n.mark(0)}
		n.Dials = append(n.Dials, dl)
	}
	n.mu.Unlock()
	fail := func(err error) (net.Conn, error) {
		if dl != nil {
			dl.Err, dl.Failed = err, n.mark(0)
			n.t.Trace("connection %d: %v", id, err)
		}
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr(address), Err: err}
	}
	d := 2 * n.latency(id, 2, 0)
	if f := n.fault(id, "hang", -1); f != nil {
		n.t.Count("fault:slow connect")
		d += time.Duration(f.Ms) * time.Millisecond
	}
	var ferr error
	if f := n.fault(id, "refuse", -1); f != nil {
		n.t.Count("fault:connection refused")
		ferr = os.NewSyscallError("connect", syscall.ECONNREFUSED)
	} else if f := n.fault(id, "unreach", -1); f != nil {
		n.t.Count("fault:host unreachable")
		d += time.Duration(f.Ms) * time.Millisecond
		ferr = os.NewSyscallError("connect", syscall.EHOSTUNREACH)
	}
	if d > 0 {
		tm := time.NewTimer(d)
		select {
		case <-tm.C:
		case <-ctx.Done():
			tm.Stop()
			return fail(ctx.Err())
		}
	}
	if ferr != nil {
		return fail(ferr)
	}
	n.mu.Lock()
	l := n.ls[address]
	n.mu.Unlock()
	if l == nil {
		n.t.Count("probe:connection to a server that is down")
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	up, down := newPipe(n, id, 0), newPipe(n, id, 1)
	up.other, down.other = down, up
	cl := &conn{n: n, id: id, rec: dl, in: down, out: up, local: addr("client"), remote: addr(address)}
	sv := &conn{n: n, id: id, in: up, out: down, local: addr(address), remote: addr("client")}
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	l.queue = append(l.queue, sv)
	w := l.wake
	l.wake = make(chan struct{})
	l.mu.Unlock()
	close(w)
	n.mu.Lock()
	n.conns = append(n.conns, cl, sv)
	n.mu.Unlock()
	n.t.Trace("connection %d to %s", id, address)
	return cl, nil
}

// ---- connections ----

type seg struct {
	b  []byte
	at time.Time
}

// pipe is one direction of a connection.
type pipe struct {
	n     *Net
	id    int
	dir   int
	other *pipe

	mu     sync.Mutex
	wake   chan struct{}
	segs   []seg
	last   time.Time // arrival of the latest segment
	seq    int
	sent   int
	ended  bool      // no more data will come
	endAt  time.Time // when the reader learns
	endErr error     // io.EOF or a reset
	wclose bool      // the writing end was closed locally
	rclose bool      // the reading end was closed locally
	rdl    time.Time
	wdl    time.Time
	cut    bool // what is written is lost
}

func newPipe(n *Net, id, dir int) *pipe {
	return &pipe{n: n, id: id, dir: dir, wake: make(chan struct{})}
}

// broadcast wakes all waiters; p.mu is held.
func (p *pipe) broadcast() {
	close(p.wake)
	p.wake = make(chan struct{})
}

func (p *pipe) read(b []byte) (int, error) {
	for {
		p.mu.Lock()
		now := time.Now()
		if p.rclose {
			p.mu.Unlock()
			return 0, net.ErrClosed
		}
		if !p.rdl.IsZero() && !now.Before(p.rdl) {
			p.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if p.ended && p.endErr != io.EOF && !now.Before(p.endAt) {
			err := p.endErr
			p.mu.Unlock()
			return 0, err
		}
		if len(b) == 0 {
			p.mu.Unlock()
			return 0, nil
		}
		if len(p.segs) > 0 && !now.Before(p.segs[0].at) {
			k := copy(b, p.segs[0].b)
			p.segs[0].b = p.segs[0].b[k:]
			if len(p.segs[0].b) == 0 {
				p.segs = p.segs[1:]
			}
			p.mu.Unlock()
			return k, nil
		}
		if len(p.segs) == 0 && p.ended && !now.Before(p.endAt) {
			err := p.endErr
			p.mu.Unlock()
			return 0, err
		}
		var until time.Time
		sooner := func(t time.Time) {
			if until.IsZero() || t.Before(until) {
				until = t
			}
		}
		if len(p.segs) > 0 {
			sooner(p.segs[0].at)
		}
		if p.ended && (len(p.segs) == 0 || p.endErr != io.EOF) {
			sooner(p.endAt)
		}
		if !p.rdl.IsZero() {
			sooner(p.rdl)
		}
		w := p.wake
		p.mu.Unlock()
		if until.IsZero() {
			<-w
			continue
		}
		tm := time.NewTimer(until.Sub(now))
		select {
		case <-w:
		case <-tm.C:
		}
		tm.Stop()
	}
}

// end tells the reader that the stream is over.
func (p *pipe) end(err error, at time.Time) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.ended && (p.endErr != io.EOF || err == io.EOF) {
		return
	}
	p.ended, p.endErr, p.endAt = true, err, at
	if at.Before(p.last) && err == io.EOF {
		p.endAt = p.last
	}
	p.broadcast()
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	now := time.Now()
	switch {
	case p.wclose:
		p.mu.Unlock()
		return 0, net.ErrClosed
	case !p.wdl.IsZero() && !now.Before(p.wdl):
		p.mu.Unlock()
		return 0, os.ErrDeadlineExceeded
	case p.ended && p.endErr != io.EOF, p.rclose && !now.Before(p.endAt):
		p.mu.Unlock()
		return 0, os.NewSyscallError("write", syscall.EPIPE)
	}
	f := p.n
	total := len(b)
	delay := f.latency(p.id, p.dir, p.seq)
	p.seq++
	if x := f.fault(p.id, "slow", p.dir); x != nil {
		f.t.Count("fault:slow link")
		delay += time.Duration(x.Ms) * time.Millisecond
	}
	var cut *NetFault
	for _, k := range []string{"reset", "fin"} {
		if x := f.fault(p.id, k, p.dir); x != nil && p.sent+len(b) > x.At && p.sent <= x.At && !p.cut {
			cut = x
			b = b[:x.At-p.sent]
		}
	}
	stall := time.Duration(0)
	if x := f.fault(p.id, "stall", p.dir); x != nil && p.sent <= x.At && x.At < p.sent+total {
		f.t.Count("fault:stalled connection")
		stall = time.Duration(x.Ms) * time.Millisecond
	}
	p.sent += total
	at := now.Add(delay + stall)
	if at.Before(p.last) {
		at = p.last
	}
	if !p.cut {
		chunk := len(b)
		if x := f.fault(p.id, "tiny", p.dir); x != nil && x.At > 0 {
			f.t.Count("fault:tiny segments")
			chunk = x.At
			if n := len(b) / 64; chunk < n {
				chunk = n
			}
		}
		for len(b) > 0 {
			k := chunk
			if k > len(b) {
				k = len(b)
			}
			p.segs = append(p.segs, seg{append([]byte(nil), b[:k]...), at})
			p.last = at
			b = b[k:]
			at = at.Add(time.Duration(chunk%7) * 100 * time.Microsecond)
		}
	}
	p.broadcast()
	p.mu.Unlock()
	if cut != nil {
		p.mu.Lock()
		p.cut = true
		p.mu.Unlock()
		f.t.Trace("connection %d: %s after %d bytes in direction %d", p.id, cut.Kind, cut.At, p.dir)
		if cut.Kind == "reset" {
			f.t.Count("fault:connection reset")
			p.end(errReset, at)
			p.other.end(errReset, at)
			return total, nil
		}
		f.t.Count("fault:stream cut short")
		p.end(io.EOF, at)
		p.other.end(errReset, at.Add(10*time.Millisecond))
	}
	return total, nil
}

var errReset = os.NewSyscallError("read", syscall.ECONNRESET)

type conn struct {
	n             *Net
	id            int
	in, out       *pipe
	local, remote addr
	once          sync.Once
	rec           *Dial
}

func (c *conn) Read(b []byte) (int, error) {
	n, err := c.in.read(b)
	if c.rec != nil {
		if n > 0 {
			c.rec.read(c.n, b[:n])
		}
		if err != nil && !errors.Is(err, os.ErrDeadlineExceeded) {
			c.rec.over(c.n, !errors.Is(err, net.ErrClosed))
		}
	}
	if err != nil && err != io.EOF {
		err = c.opErr("read", err)
	}
	return n, err
}

func (c *conn) Write(b []byte) (int, error) {
	n, err := c.out.write(b)
	if c.rec != nil && n > 0 {
		c.rec.wrote(c.n, b[:n])
	}
	if err != nil {
		err = c.opErr("write", err)
	}
	return n, err
}

func (c *conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *conn) Close() error {
	err := errors.New("")
	c.once.Do(func() {
		err = nil
		if c.rec != nil {
			c.rec.over(c.n, false)
		}
		lat := c.n.latency(c.id, 3, 0)
		at := time.Now().Add(lat)
		c.out.mu.Lock()
		c.out.wclose = true
		c.out.mu.Unlock()
		c.out.end(io.EOF, at)
		c.in.mu.Lock()
		c.in.rclose = true
		if !c.in.ended {
			c.in.endAt = at
		}
		c.in.broadcast()
		c.in.mu.Unlock()
	})
	if err != nil {
		return c.opErr("close", net.ErrClosed)
	}
	return nil
}

func (c *conn) reset() {
	c.in.end(errReset, time.Now())
	c.out.end(errReset, time.Now())
}

func (c *conn) LocalAddr() net.Addr  { return c.local }
func (c *conn) RemoteAddr() net.Addr { return c.remote }

func (c *conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *conn) SetReadDeadline(t time.Time) error {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	c.in.rdl = t
	c.in.broadcast()
	return nil
}

func (c *conn) SetWriteDeadline(t time.Time) error {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	c.out.wdl = t
	return nil
}

// Package memnet provides in-memory TCP-like connections for use under virtual time:
// byte segmentation, latency, deadlines and connection faults.
package memnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

type seg struct {
	at   time.Time
	data []byte
}

// half is one direction of a connection.
type half struct {
	mu     sync.Mutex
	segs   []seg
	last   time.Time // delivery time of the last queued segment
	eofAt  time.Time // zero: writer not closed
	eof    bool
	reset  bool // reader sees ECONNRESET at once
	notify chan struct{}
}

func newHalf() *half { return &half{notify: make(chan struct{}, 1)} }

func (h *half) wake() {
	select {
	case h.notify <- struct{}{}:
	default:
	}
}

// size is the number of bytes not yet read.
func (h *half) size() (n int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, s := range h.segs {
		n += len(s.data)
	}
	return n
}

func (h *half) push(b []byte, delay time.Duration) {
	h.mu.Lock()
	if h.eof || h.reset {
		h.mu.Unlock()
		return
	}
	at := time.Now().Add(delay)
	if at.Before(h.last) {
		at = h.last
	}
	h.last = at
	h.segs = append(h.segs, seg{at, append([]byte(nil), b...)})
	h.mu.Unlock()
	h.wake()
}

func (h *half) close(delay time.Duration) {
	h.mu.Lock()
	if !h.eof {
		h.eof = true
		at := time.Now().Add(delay)
		if at.Before(h.last) {
			at = h.last
		}
		h.eofAt = at
	}
	h.mu.Unlock()
	h.wake()
}

// Conn is the client's end.
type Conn struct {
	ID       int
	Addr     string
	in, out  *half // in: server->client, out: client->server
	mu       sync.Mutex
	closed   bool
	deadline time.Time
	wdl      time.Time // of writes
	wake     chan struct{}
	room     chan struct{} // there may be room for a blocked write again, or a reason to end it
	Window   int           // bytes the peer may leave unread before a write blocks, 0 without limit
	// behaviour knobs set by the server side
	writeErr error // returned by Write from now on
	OnClose  func()
	Opened   time.Time
	ClosedAt time.Time
	laddr    net.Addr
	raddr    net.Addr
	latency  time.Duration
	Tap      func(b []byte) // sees what the client writes
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

func sysErr(call string, e syscall.Errno) error { return os.NewSyscallError(call, e) }

func (c *Conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for {
		c.mu.Lock()
		closed, dl := c.closed, c.deadline
		c.mu.Unlock()
		if closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		now := time.Now()
		if !dl.IsZero() && !now.Before(dl) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		h := c.in
		h.mu.Lock()
		if h.reset {
			h.mu.Unlock()
			return 0, c.opErr("read", sysErr("read", syscall.ECONNRESET))
		}
		var next time.Time
		if len(h.segs) > 0 {
			s := &h.segs[0]
			if !now.Before(s.at) {
				n := copy(p, s.data)
				s.data = s.data[n:]
				if len(s.data) == 0 {
					h.segs = h.segs[1:]
				}
				h.mu.Unlock()
				return n, nil
			}
			next = s.at
		} else if h.eof {
			if !now.Before(h.eofAt) {
				h.mu.Unlock()
				return 0, io.EOF
			}
			next = h.eofAt
		}
		h.mu.Unlock()
		if !dl.IsZero() && (next.IsZero() || dl.Before(next)) {
			next = dl
		}
		var tc <-chan time.Time
		var tm *time.Timer
		if !next.IsZero() {
			tm = time.NewTimer(next.Sub(now))
			tc = tm.C
		}
		select {
		case <-h.notify:
		case <-c.wake:
		case <-tc:
		}
		if tm != nil {
			tm.Stop()
		}
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return 0, c.opErr("write", net.ErrClosed)
	}
	we := c.writeErr
	late := !c.wdl.IsZero() && !time.Now().Before(c.wdl)
	c.mu.Unlock()
	if we != nil {
		return 0, c.opErr("write", we)
	}
	if late {
		return 0, c.opErr("write", os.ErrDeadlineExceeded)
	}
	if c.Window > 0 {
		return c.writeBounded(p)
	}
	if c.Tap != nil {
		c.Tap(p)
	}
	c.out.push(p, c.latency)
	return len(p), nil
}

// writeBounded writes as much as the peer's window takes and waits for the rest.
func (c *Conn) writeBounded(p []byte) (n int, err error) {
	for {
		c.mu.Lock()
		closed, we, dl := c.closed, c.writeErr, c.wdl
		c.mu.Unlock()
		now := time.Now()
		switch {
		case closed:
			return n, c.opErr("write", net.ErrClosed)
		case we != nil:
			return n, c.opErr("write", we)
		case !dl.IsZero() && !now.Before(dl):
			return n, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if k := min(c.Window-c.out.size(), len(p)); k > 0 {
			if c.Tap != nil {
				c.Tap(p[:k])
			}
			c.out.push(p[:k], c.latency)
			n += k
			p = p[k:]
		}
		if len(p) == 0 {
			return n, nil
		}
		var tc <-chan time.Time
		var tm *time.Timer
		if !dl.IsZero() {
			tm = time.NewTimer(dl.Sub(now))
			tc = tm.C
		}
		select {
		case <-c.room:
		case <-tc:
		}
		if tm != nil {
			tm.Stop()
		}
	}
}

func (c *Conn) wakeWriter() {
	select {
	case c.room <- struct{}{}:
	default:
	}
}

func (c *Conn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.ClosedAt = time.Now()
	c.mu.Unlock()
	c.out.close(0)
	select {
	case c.wake <- struct{}{}:
	default:
	}
	c.wakeWriter()
	if c.OnClose != nil {
		c.OnClose()
	}
	return nil
}

func (c *Conn) IsClosed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

func (c *Conn) LocalAddr() net.Addr  { return c.laddr }
func (c *Conn) RemoteAddr() net.Addr { return c.raddr }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.opErr("set", net.ErrClosed)
	}
	c.deadline = t
	c.mu.Unlock()
	select {
	case c.wake <- struct{}{}:
	default:
	}
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.opErr("set", net.ErrClosed)
	}
	c.wdl = t
	c.mu.Unlock()
	c.wakeWriter()
	return nil
}

// Server is the server's end of a connection. It implements net.Conn so that a TLS server can sit on it.
type Server struct {
	C *Conn
	// Segment splits a server write into pieces with delays; nil sends it whole after C.latency.
	Segment func(b []byte) ([][]byte, []time.Duration)
	Total   int // bytes received from the client
}

// Read returns client bytes; io.EOF when the client closed.
func (s *Server) Read(p []byte) (int, error) {
	h := s.C.out
	for {
		h.mu.Lock()
		now := time.Now()
		var next time.Time
		if len(h.segs) > 0 {
			g := &h.segs[0]
			if !now.Before(g.at) {
				n := copy(p, g.data)
				g.data = g.data[n:]
				if len(g.data) == 0 {
					h.segs = h.segs[1:]
				}
				s.Total += n
				h.mu.Unlock()
				s.C.wakeWriter()
				return n, nil
			}
			next = g.at
		} else if h.eof {
			h.mu.Unlock()
			return 0, io.EOF
		}
		h.mu.Unlock()
		var tc <-chan time.Time
		var tm *time.Timer
		if !next.IsZero() {
			tm = time.NewTimer(next.Sub(now))
			tc = tm.C
		}
		select {
		case <-h.notify:
		case <-tc:
		}
		if tm != nil {
			tm.Stop()
		}
	}
}

// WaitClosed returns when the client has closed, without reading anything.
func (s *Server) WaitClosed() {
	h := s.C.out
	for {
		h.mu.Lock()
		eof := h.eof
		h.mu.Unlock()
		if eof {
			return
		}
		<-h.notify
	}
}

// Write sends to the client through the segmenter.
func (s *Server) Write(b []byte) (int, error) {
	if s.Segment == nil {
		s.C.in.push(b, s.C.latency)
		return len(b), nil
	}
	parts, delays := s.Segment(b)
	for i, p := range parts {
		s.C.in.push(p, s.C.latency+delays[i])
	}
	return len(b), nil
}

// Gone tells whether the client can no longer be reached.
func (s *Server) Gone() bool {
	s.C.in.mu.Lock()
	gone := s.C.in.eof || s.C.in.reset
	s.C.in.mu.Unlock()
	return gone || s.C.IsClosed()
}

// WriteAfter sends b whole after an extra delay.
func (s *Server) WriteAfter(b []byte, d time.Duration) { s.C.in.push(b, d) }

// CloseGraceful lets the client read what was sent, then EOF; client writes fail with EPIPE.
func (s *Server) CloseGraceful() {
	s.C.in.close(s.C.latency)
	s.C.mu.Lock()
	s.C.writeErr = sysErr("write", syscall.EPIPE)
	s.C.mu.Unlock()
	s.C.wakeWriter()
}

// CloseHalf: EOF to the reader but client writes still succeed (first write after a FIN).
func (s *Server) CloseHalf() { s.C.in.close(s.C.latency) }

// Reset makes reads and writes of the client fail with ECONNRESET / EPIPE.
func (s *Server) Reset() {
	s.C.in.mu.Lock()
	s.C.in.reset = true
	s.C.in.mu.Unlock()
	s.C.in.wake()
	s.C.mu.Lock()
	s.C.writeErr = sysErr("write", syscall.EPIPE)
	s.C.mu.Unlock()
	s.C.wakeWriter()
}

func (s *Server) Close() error                       { s.CloseGraceful(); return nil }
func (s *Server) LocalAddr() net.Addr                { return s.C.raddr }
func (s *Server) RemoteAddr() net.Addr               { return s.C.laddr }
func (s *Server) SetDeadline(t time.Time) error      { return nil }
func (s *Server) SetReadDeadline(t time.Time) error  { return nil }
func (s *Server) SetWriteDeadline(t time.Time) error { return nil }

// NewPair makes a connection to addr.
func NewPair(id int, address string, latency time.Duration) (*Conn, *Server) {
	c := &Conn{ID: id, Addr: address, in: newHalf(), out: newHalf(), wake: make(chan struct{}, 1), room: make(chan struct{}, 1), Opened: time.Now(),
		laddr: addr("127.0.0.1:50000"), raddr: addr(address), latency: latency}
	return c, &Server{C: c}
}

// DialErr builds the error a TCP dial returns.
func DialErr(address string, e error) error {
	return &net.OpError{Op: "dial", Net: "tcp", Addr: addr(address), Err: e}
}

// ErrRefused is ECONNREFUSED as the connect syscall reports it.
var ErrRefused = sysErr("connect", syscall.ECONNREFUSED)

type timeoutError struct{}

func (timeoutError) Error() string     { return "i/o timeout" }
func (timeoutError) Timeout() bool     { return true }
func (timeoutError) Temporary() bool   { return true }
func (timeoutError) Is(err error) bool { return err == context.DeadlineExceeded }

// ErrDialTimeout is what net reports when the dialer's timeout expires.
var ErrDialTimeout error = timeoutError{}

// SleepOrDone sleeps or returns early when ctx ends.
func SleepOrDone(ctx context.Context, d time.Duration) error {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return errors.New("operation was canceled")
	}
}

package engine

import (
	"errors"
	"io"
	"net"
	"os"
	"time"

	"verif.local/sim/simrt"
)

// Half is one direction of a simulated byte stream.
type Half struct {
	s    *Sim
	name string
	q    []byte // arrived, unread
	eof  bool
	rst  error
	last time.Duration // arrival time of the last scheduled segment
	infl int           // segments in flight

	// every byte handed to the transport, as records
	parse   []byte
	Wire    [][]byte // complete records the writer produced
	OnWire  func(rec []byte)
	Mangle  func(rec []byte) [][]byte // nil: honest
	raw     bool
	SentAll []byte
	total   int64
	used    int  // bytes written and not yet read
	gone    bool // the reader has closed: bytes are taken and dropped
}

// LinkPolicy says how a stream segments and delays.
type LinkPolicy struct {
	Seg    int           // 0 whole, 1 random pieces, 2 tiny pieces, 3 header splits
	MaxLat time.Duration // per segment
	Chunk  int           // read chunking: 0 all, 1 random, 2 tiny
}

// Conn is one end of a simulated stream; it implements net.Conn.
type Conn struct {
	s      *Sim
	Name   string
	In     *Half
	Out    *Half
	NB     bool
	Pol    *LinkPolicy
	closed bool
	rdl    time.Duration // -1: none
	wdl    time.Duration

	// fault hooks; nil means none
	ReadFault  func(c *Conn) (bool, error)
	WriteFault func(c *Conn, n int) (int, error)
	ReadCut    func(c *Conn, n int) (int, error) // may fail a Read that has data
	Broken     error                             // what every Read returns from now on
	ReadBytes  int
	Reads      int
	Writes     int
	RawWrites  int64
	Activity   int
	Window     int // bytes on the way or unread at which Write blocks; 0 none
	Waits      int // how often it did
}

type addr string

func (a addr) Network() string { return "sim" }
func (a addr) String() string  { return string(a) }

// NewStream makes a simulated bidirectional byte stream.
func NewStream(s *Sim, an, bn string, anb, bnb bool, pol *LinkPolicy) (*Conn, *Conn) {
	ab := &Half{s: s, name: an + ">" + bn}
	ba := &Half{s: s, name: bn + ">" + an}
	a := &Conn{s: s, Name: an, In: ba, Out: ab, NB: anb, Pol: pol, rdl: -1, wdl: -1}
	b := &Conn{s: s, Name: bn, In: ab, Out: ba, NB: bnb, Pol: pol, rdl: -1, wdl: -1}
	return a, b
}

// records splits complete TLS records off the front of p.
func records(p []byte) (recs [][]byte, rest []byte) {
	for len(p) >= 5 {
		n := 5 + int(p[3])<<8 + int(p[4])
		if len(p) < n {
			break
		}
		recs = append(recs, append([]byte{}, p[:n]...))
		p = p[n:]
	}
	return recs, p
}

// push hands bytes to the network.
func (h *Half) push(p []byte, pol *LinkPolicy) {
	h.SentAll = append(h.SentAll, p...)
	h.parse = append(h.parse, p...)
	recs, rest := records(h.parse)
	h.parse = append([]byte{}, rest...)
	for _, r := range recs {
		h.Wire = append(h.Wire, r)
		if h.OnWire != nil {
			h.OnWire(r)
		}
	}
	if h.Mangle != nil && !h.raw {
		for _, r := range recs {
			for _, o := range h.Mangle(r) {
				h.deliver(o, pol)
			}
		}
		return
	}
	h.deliver(p, pol)
}

// Inject puts bytes on the wire without the writer.
func (h *Half) Inject(p []byte, pol *LinkPolicy) { h.deliver(p, pol) }

func (h *Half) deliver(p []byte, pol *LinkPolicy) {
	s := h.s
	for len(p) > 0 {
		n := len(p)
		switch pol.Seg {
		case 1:
			if len(p) > 1 {
				n = len(p) - s.Net(len(p))
			}
		case 2:
			n = 1 + s.Net(7)
			if len(p) > 400 {
				n *= 1 + len(p)/50
			}
		case 3:
			// split inside headers
			if len(p) > 5 {
				n = []int{len(p), 5, 1, 4, 6, len(p) - 1}[s.Net(6)]
			}
		}
		if n > len(p) {
			n = len(p)
		}
		seg := append([]byte{}, p[:n]...)
		p = p[n:]
		at := s.K.Now()
		if pol.MaxLat > 0 {
			at += s.Dur("net", pol.MaxLat)
		}
		if at < h.last {
			at = h.last
		}
		h.last = at
		h.infl++
		s.K.At(at-s.K.Now(), h.name, func() {
			h.infl--
			h.q = append(h.q, seg...)
			h.total += int64(len(seg))
			s.K.Logf("%s arrive %d #%08x", h.name, len(seg), uint32(hash64(seg)))
		})
	}
}

// End closes the direction after everything in flight.
func (h *Half) End(err error) {
	d := h.last - h.s.K.Now()
	h.s.K.At(d, h.name+" end", func() {
		if err != nil {
			h.rst = err
		} else {
			h.eof = true
		}
		h.s.K.Logf("%s end %v", h.name, err)
	})
}

func (h *Half) readable() bool { return len(h.q) > 0 || h.eof || h.rst != nil }

func (c *Conn) Readable() bool { return c.closed || c.Broken != nil || c.In.readable() }

// Pending reports whether more will arrive without anybody doing anything.
func (c *Conn) Pending() bool { return c.In.infl > 0 }

func (c *Conn) Read(p []byte) (int, error) {
	k := c.s.K
	c.Reads++
	c.Activity++
	k.Yield("net read")
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.ReadFault != nil {
		if handled, err := c.ReadFault(c); handled {
			k.Logf("%s read fault %v", c.Name, err)
			return 0, err
		}
	}
	if c.Broken != nil {
		return 0, c.Broken
	}
	if c.rdl >= 0 && c.rdl <= k.Now() {
		return 0, os.ErrDeadlineExceeded
	}
	if !c.In.readable() {
		if c.NB {
			return 0, nil
		}
		for !c.In.readable() && !c.closed {
			if c.rdl >= 0 {
				d := c.rdl
				if d <= k.Now() {
					return 0, os.ErrDeadlineExceeded
				}
				k.BlockUntil("net read", d-k.Now(), func() bool { return c.closed || c.In.readable() || c.rdl != d })
			} else {
				k.Block("net read", func() bool { return c.closed || c.In.readable() || c.rdl >= 0 })
			}
		}
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(c.In.q) == 0 {
		if c.In.rst != nil {
			return 0, c.In.rst
		}
		return 0, io.EOF
	}
	n := len(c.In.q)
	if n > len(p) {
		n = len(p)
	}
	if n > 1 {
		switch c.Pol.Chunk {
		case 1:
			n -= c.s.Net(n)
		case 2:
			if m := 1 + c.s.Net(9); m < n {
				n = m
			}
			if len(c.In.q) > 2000 {
				n = min(len(c.In.q)/3, len(p))
			}
		}
	}
	var err error
	if c.ReadCut != nil {
		n, err = c.ReadCut(c, n)
	}
	copy(p, c.In.q[:n])
	c.In.q = c.In.q[n:]
	c.In.used = max(c.In.used-n, 0)
	c.ReadBytes += n
	k.Logf("%s read %d", c.Name, n)
	if err != nil {
		k.Logf("%s read fault %v with %d bytes", c.Name, err, n)
	}
	return n, err
}

func (c *Conn) Write(p []byte) (int, error) {
	k := c.s.K
	c.Writes++
	c.Activity++
	k.Yield("net write")
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.Out.rst != nil || c.Out.eof && false {
		return 0, c.Out.rst
	}
	if c.wdl >= 0 && c.wdl <= k.Now() {
		return 0, os.ErrDeadlineExceeded
	}
	n := len(p)
	var err error
	if c.WriteFault != nil {
		n, err = c.WriteFault(c, len(p))
		if err != nil {
			k.Logf("%s write fault after %d of %d: %v", c.Name, n, len(p), err)
		}
	}
	if done, werr := c.flow(p[:n]); werr != nil {
		return done, werr
	}
	k.Yield("net wrote")
	return n, err
}

// flow hands bytes to the network as fast as it takes them.
func (c *Conn) flow(p []byte) (int, error) {
	k := c.s.K
	at := 0
	for {
		n := len(p) - at
		if c.Window > 0 && !c.NB && !c.Out.gone {
			room := func() int { return c.Window - c.Out.used }
			for room() <= 0 && !c.Out.gone {
				if c.wdl >= 0 && c.wdl <= k.Now() {
					return at, os.ErrDeadlineExceeded
				}
				if c.Waits++; c.Waits == 1 {
					k.Fault("write-blocks")
				}
				d := c.wdl
				cond := func() bool { return room() > 0 || c.Out.gone || c.closed || c.Out.rst != nil || c.wdl != d }
				if d >= 0 {
					k.BlockUntil("net write", d-k.Now(), cond)
				} else {
					k.Block("net write", cond)
				}
				if c.closed {
					return at, net.ErrClosed
				}
				if c.Out.rst != nil {
					return at, c.Out.rst
				}
			}
			if !c.Out.gone {
				n = min(n, room())
			}
		}
		k.Logf("%s write %d #%08x", c.Name, n, uint32(hash64(p[at:at+n])))
		c.RawWrites += int64(n)
		c.Out.used += n
		c.Out.push(p[at:at+n], c.Pol)
		if at += n; at == len(p) {
			return at, nil
		}
	}
}

func (c *Conn) Close() error {
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.In.gone = true
	c.s.K.Logf("%s close", c.Name)
	c.Out.End(nil)
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return addr(c.Name) }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.In.name) }

func (c *Conn) rel(t time.Time) time.Duration {
	if t.IsZero() {
		return -1
	}
	d := t.Sub(c.s.K.Start) - simrt.Skew()
	if d < 0 {
		d = 0
	}
	return d
}
func (c *Conn) SetDeadline(t time.Time) error      { c.rdl, c.wdl = c.rel(t), c.rel(t); return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl = c.rel(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = c.rel(t); return nil }

var errReset = errors.New("connection reset by peer")
var errIO = errors.New("simulated I/O error")

package engine

import (
	"io"
	"net"
	"os"
	"time"

	"verif.local/sim/simrt"
)

// DPolicy is the behaviour of a simulated datagram network.  All
// probabilities are per mille; they apply until Sim.FaultEnd.
type DPolicy struct {
	Loss, Dup, Corrupt, Truncate int
	MinLat, MaxLat               time.Duration
	Reorder                      bool // independent delays; otherwise FIFO
	Partitions                   [][2]time.Duration
	Oneway                       int // 0 both, 1 only client>server lossy, 2 only server>client
	LateLat                      time.Duration
	Drop                         func(h *DHalf, idx int, p []byte) bool // targeted loss
}

// DHalf is one direction of a datagram link.
type DHalf struct {
	s     *Sim
	name  string
	c2s   bool
	q     [][]byte
	last  time.Duration
	infl  int
	Sent  [][]byte
	Times []time.Duration
	Tap   func(idx int, p []byte) (handled bool)
	eof   bool
	idx   int
	got   map[uint64]int // datagrams that arrived
	OnGot func(p []byte)
}

// DConn is one end; it implements net.Conn with one datagram per Read.
type DConn struct {
	s        *Sim
	Name     string
	In, Out  *DHalf
	NB       bool
	Pol      *DPolicy
	closed   bool
	rdl      time.Duration
	Activity int
	WriteErr func(p []byte) error
	ReadErr  func() error
}

func NewDgram(s *Sim, an, bn string, anb, bnb bool, pol *DPolicy) (*DConn, *DConn) {
	ab := &DHalf{s: s, name: an + ">" + bn, c2s: true, got: map[uint64]int{}}
	ba := &DHalf{s: s, name: bn + ">" + an, got: map[uint64]int{}}
	return &DConn{s: s, Name: an, In: ba, Out: ab, NB: anb, Pol: pol, rdl: -1},
		&DConn{s: s, Name: bn, In: ab, Out: ba, NB: bnb, Pol: pol, rdl: -1}
}

func (h *DHalf) send(p []byte, pol *DPolicy) {
	s := h.s
	p = append([]byte{}, p...)
	h.Sent = append(h.Sent, p)
	h.Times = append(h.Times, s.K.Now())
	idx := h.idx
	h.idx++
	if h.Tap != nil && h.Tap(idx, p) {
		return
	}
	faulty := s.K.Now() < s.FaultEnd
	if pol.Oneway == 1 && !h.c2s || pol.Oneway == 2 && h.c2s {
		faulty = false
	}
	if faulty {
		for _, w := range pol.Partitions {
			if s.K.Now() >= w[0] && s.K.Now() < w[1] {
				s.K.Fault("partition-drop")
				s.K.Logf("%s drop %d partition", h.name, idx)
				return
			}
		}
		if pol.Drop != nil && pol.Drop(h, idx, p) {
			s.K.Fault("targeted-drop")
			s.K.Logf("%s drop %d targeted", h.name, idx)
			return
		}
		if s.FaultP(pol.Loss, 1000) {
			s.K.Fault("drop")
			s.K.Logf("%s drop %d", h.name, idx)
			return
		}
		n := 1
		for n < 4 && s.FaultP(pol.Dup, 1000) {
			s.K.Fault("duplicate")
			n++
		}
		for i := 0; i < n; i++ {
			q := p
			if s.FaultP(pol.Corrupt, 1000) {
				s.K.Fault("corrupt")
				q = append([]byte{}, p...)
				q[s.Fault(len(q))] ^= byte(1 + s.Fault(255))
			}
			if s.FaultP(pol.Truncate, 1000) && len(q) > 1 {
				s.K.Fault("truncate")
				q = q[:s.Fault(len(q))]
			}
			d := pol.MinLat
			if pol.MaxLat > 0 {
				d += s.Dur("net", pol.MaxLat)
			}
			if i > 0 && d == pol.MinLat {
				d += time.Duration(1+s.Net(50)) * time.Millisecond
			}
			if pol.Reorder && s.K.Now()+d < h.last {
				s.K.Fault("reorder")
			}
			h.Deliver(q, d, pol.Reorder)
		}
		return
	}
	h.Deliver(p, pol.MinLat, false)
}

// Deliver schedules a datagram.
func (h *DHalf) Deliver(p []byte, d time.Duration, reorder bool) {
	s := h.s
	at := s.K.Now() + d
	if !reorder && at < h.last {
		at = h.last
	}
	if at > h.last {
		h.last = at
	}
	h.infl++
	s.K.At(at-s.K.Now(), h.name, func() {
		h.infl--
		if h.eof {
			return
		}
		h.q = append(h.q, p)
		h.got[hash64(p)]++
		if h.OnGot != nil {
			h.OnGot(p)
		}
		s.K.Logf("%s arrive %d #%08x", h.name, len(p), uint32(hash64(p)))
	})
}

func (c *DConn) Readable() bool { return c.closed || len(c.In.q) > 0 || c.In.eof }
func (c *DConn) Pending() bool  { return c.In.infl > 0 }

func (c *DConn) Read(p []byte) (int, error) {
	k := c.s.K
	c.Activity++
	k.Yield("net read")
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(c.In.q) == 0 {
		if c.In.eof {
			return 0, io.EOF
		}
		if c.NB {
			return 0, nil
		}
		for len(c.In.q) == 0 && !c.closed && !c.In.eof {
			if c.rdl >= 0 {
				if c.rdl <= k.Now() {
					return 0, os.ErrDeadlineExceeded
				}
				k.BlockUntil("net read", c.rdl-k.Now(), func() bool { return c.closed || len(c.In.q) > 0 || c.In.eof })
			} else {
				k.Block("net read", func() bool { return c.closed || len(c.In.q) > 0 || c.In.eof || c.rdl >= 0 })
			}
		}
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(c.In.q) == 0 {
			return 0, io.EOF
		}
	}
	if c.ReadErr != nil {
		if err := c.ReadErr(); err != nil {
			k.Logf("%s read error", c.Name)
			return 0, err
		}
	}
	d := c.In.q[0]
	c.In.q = c.In.q[1:]
	n := copy(p, d)
	k.Logf("%s read %d #%08x", c.Name, n, uint32(hash64(d)))
	return n, nil
}

func (c *DConn) Write(p []byte) (int, error) {
	k := c.s.K
	c.Activity++
	k.Yield("net write")
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.WriteErr != nil {
		if err := c.WriteErr(p); err != nil {
			k.Logf("%s write error", c.Name)
			return 0, err
		}
	}
	k.Logf("%s send %d #%08x", c.Name, len(p), uint32(hash64(p)))
	c.Out.send(p, c.Pol)
	k.Yield("net wrote")
	return len(p), nil
}

func (c *DConn) Close() error {
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.s.K.Logf("%s close", c.Name)
	return nil
}
func (c *DConn) LocalAddr() net.Addr  { return addr(c.Name) }
func (c *DConn) RemoteAddr() net.Addr { return addr(c.In.name) }
func (c *DConn) SetDeadline(t time.Time) error {
	if t.IsZero() {
		c.rdl = -1
	} else {
		c.rdl = max(t.Sub(c.s.K.Start)-simrt.Skew(), 0)
	}
	return nil
}
func (c *DConn) SetReadDeadline(t time.Time) error  { return c.SetDeadline(t) }
func (c *DConn) SetWriteDeadline(t time.Time) error { return nil }

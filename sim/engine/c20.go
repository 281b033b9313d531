package engine

import (
	"bytes"
	"errors"
	"io"
	"net"
	"os"
	"reflect"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/simrt"
)

func init() {
	register("C20",
		Scenario{"dial", 8, func(s *Sim) { dials(s, 1, false) }},
		Scenario{"dials", 3, func(s *Sim) { dials(s, 2+s.CfgW(3, 1), false) }},
		Scenario{"dial-udp", 2, func(s *Sim) { dials(s, 1, true) }},
	)
}

// call is one dial and what its peer does.
type call struct {
	s      *Sim
	n      int
	udp    bool
	mode   string
	way    int
	limit  time.Duration // 0: none
	skew   time.Duration
	delay  time.Duration // before the connection exists
	begun  time.Duration
	cf     *Conf
	pol    *LinkPolicy
	ct, st Transport
	lim    time.Time // what the dialer of the network was told
	quick  bool      // nothing but the limit stands in the way
	ended  time.Duration
	ok     bool
	err    error
	conn   *mint.Conn
	server *Peer
	done   bool
	sndone bool
	task   *simrt.Task
	first  []byte
}

func (c *call) closedTr() bool {
	switch t := c.ct.(type) {
	case *Conn:
		return t.closed
	case *DConn:
		return t.closed
	}
	return true
}

// timedOut is what the network's own dialer reports.
type timedOut struct{}

func (timedOut) Error() string   { return "i/o timeout" }
func (timedOut) Timeout() bool   { return true }
func (timedOut) Temporary() bool { return true }

// open is the network's part of a dial.
func (c *call) open(network, address string, lim time.Time) (net.Conn, error) {
	s := c.s
	c.lim = lim
	until := time.Duration(-1)
	if !lim.IsZero() {
		until = lim.Sub(s.K.Start)
	}
	wait := func(d time.Duration) bool {
		if until >= 0 && s.K.Now()+d >= until {
			if w := until - s.K.Now(); w > 0 {
				s.K.Sleep(w)
			}
			return false
		}
		s.K.Sleep(d)
		return true
	}
	fail := func(err error) (net.Conn, error) {
		s.K.Logf("dial %d: the network answers %v", c.n, err)
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr(address), Err: err}
	}
	if !lim.IsZero() && until <= s.K.Now() {
		return fail(timedOut{})
	}
	switch c.mode {
	case "refused":
		if !wait(c.delay) {
			return fail(timedOut{})
		}
		return fail(errors.New("connection refused"))
	case "unreachable":
		if until >= 0 {
			s.K.Sleep(until - s.K.Now())
			return fail(timedOut{})
		}
		s.K.Sleep(2 * time.Minute)
		return fail(errors.New("no route to host"))
	}
	if !wait(c.delay) {
		return fail(timedOut{})
	}
	s.K.Logf("dial %d: connected", c.n)
	c.serve()
	return c.ct, nil
}

// serve sets the peer going.
func (c *call) serve() {
	s := c.s
	if c.udp {
		c.ct, c.st = pairOf(NewDgram(s, "c", "s", false, false, &DPolicy{MinLat: time.Millisecond}))
	} else {
		a, b := NewStream(s, "c", "s", false, false, c.pol)
		c.ct, c.st = a, b
		a.Out.OnWire = func(rec []byte) {
			if len(c.first) == 0 {
				c.first = append([]byte{}, rec...)
			}
		}
	}
	stream, _ := c.ct.(*Conn)
	honest := func() {
		p := NewPeer(s, "s", c.cf.S, c.st, false)
		c.server = p
		p.Go("serve", func() {
			p.Handshake()
			if !p.Done {
				// as servers do
				p.Tr.Close()
				return
			}
			// an echo
			buf := make([]byte, 4000)
			for {
				n, err := p.Conn.Read(buf)
				if err != nil {
					p.Tr.Close()
					return
				}
				if _, err = p.Conn.Write(buf[:n]); err != nil {
					return
				}
			}
		})
	}
	s.K.Fault(c.mode)
	switch c.mode {
	case "prompt", "slow":
		honest()
	case "silent":
	case "stalls": // it goes quiet at some byte of its flight
		left := s.Fault(3000)
		honest()
		if stream != nil {
			b := c.st.(*Conn)
			b.Out.Mangle = func(rec []byte) [][]byte {
				if left < len(rec) {
					rec = rec[:left]
				}
				left -= len(rec)
				return [][]byte{rec}
			}
		} else {
			d := c.st.(*DConn)
			n := s.Fault(4)
			d.Out.Tap = func(int, []byte) bool {
				n--
				return n < 0
			}
		}
	case "deaf": // it takes nothing
		if stream != nil {
			stream.WriteFault = func(x *Conn, n int) (int, error) {
				for !x.closed {
					if x.wdl < 0 {
						s.K.Block("full", func() bool { return x.closed || x.wdl >= 0 })
					} else if d := x.wdl; d <= s.K.Now() {
						return 0, os.ErrDeadlineExceeded
					} else {
						s.K.BlockUntil("full", d-s.K.Now(), func() bool { return x.closed || x.wdl != d })
					}
				}
				return 0, net.ErrClosed
			}
		}
	case "trickle": // it keeps the line busy
		var tick func()
		i := 0
		big := rec(22, append([]byte{2, 0, 0x20, 0}, make([]byte, 8192)...))
		kind := s.Fault(3)
		tick = func() {
			if c.closedTr() || i > 3000 {
				return
			}
			b := rec(20, []byte{1})
			switch kind {
			case 1: // a hello that takes its time
				b = big[i : i+1]
			case 2:
				b = rec(21, []byte{1, 90})
			}
			i++
			if stream != nil {
				c.st.(*Conn).Out.Inject(b, &LinkPolicy{})
			} else {
				c.st.(*DConn).Out.Deliver(b, 0, true)
			}
			s.K.At(200*time.Millisecond, "trickle", tick)
		}
		s.K.At(time.Millisecond, "trickle", tick)
	case "hangs-up":
		at := s.Dur("fault", 300*time.Millisecond)
		if s.FaultP(1, 2) {
			honest()
		}
		s.K.At(at, "hang up", func() { c.st.Close() })
	case "alert":
		b := rec(21, []byte{2, 40})
		s.K.At(s.Dur("fault", time.Second), "alert", func() {
			if stream != nil {
				c.st.(*Conn).Out.Inject(b, &LinkPolicy{})
			}
		})
	}
}

func (c *call) dial(cfg *mint.Config, network, address string) {
	s := c.s
	var timeout time.Duration
	var deadline time.Time
	now := s.K.Start.Add(s.K.Now()).Add(c.skew)
	far := c.limit + time.Second + s.Dur("cfg", time.Hour)
	switch c.way {
	case 1:
		timeout = c.limit
	case 2:
		deadline = now.Add(c.limit)
	case 3:
		timeout, deadline = c.limit, now.Add(far)
	case 4:
		timeout, deadline = far, now.Add(c.limit)
	}
	c.begun = s.K.Now()
	if c.way == 0 && s.OpP(1, 2) {
		c.conn, c.err = mint.Dial(network, address, cfg)
	} else {
		c.conn, c.err = dialWith(mint.DialWithDialer, timeout, deadline, network, address, cfg)
	}
	c.ended = s.K.Now()
	s.K.Logf("dial %d returned after %v: %v", c.n, c.ended-c.begun, c.err)
	c.done = true
	c.judge()
	if s.Failed() || c.err != nil {
		return
	}
	// the connection works, also once the limit has passed
	x := c.conn
	defer x.Close()
	msg := Pattern(uint32(c.n), 0, 1+s.Op(2000))
	for i := 0; i < 2 && !s.Failed(); i++ {
		if i == 1 {
			s.K.Sleep(c.limit + time.Duration(s.Op(3))*time.Second)
		}
		c.echo(x, msg)
	}
}

// dialWith calls DialWithDialer with whatever dialer type it has: the
// simulator's, when the code under test is built for it.
func dialWith[D any](f func(*D, string, string, *mint.Config) (*mint.Conn, error), timeout time.Duration, deadline time.Time, network, address string, cfg *mint.Config) (*mint.Conn, error) {
	d := new(D)
	v := reflect.ValueOf(d).Elem()
	v.FieldByName("Timeout").Set(reflect.ValueOf(timeout))
	v.FieldByName("Deadline").Set(reflect.ValueOf(deadline))
	return f(d, network, address, cfg)
}

func (c *call) echo(x *mint.Conn, msg []byte) {
	s := c.s
	if c.mode == "hangs-up" {
		return
	}
	if _, err := x.Write(msg); err != nil {
		s.Fail("dead", "dial %d: a write %v after the start of the dial (limit %v) fails: %v", c.n, s.K.Now()-c.begun, c.limit, err)
		return
	}
	if c.mode != "prompt" && c.mode != "slow" {
		return
	}
	got := make([]byte, len(msg))
	buf := got
	for len(buf) > 0 {
		n, err := x.Read(buf)
		buf = buf[n:]
		if err != nil {
			s.Fail("dead", "dial %d: a read %v after the start of the dial (limit %v) fails: %v", c.n, s.K.Now()-c.begun, c.limit, err)
			return
		}
	}
	if !bytes.Equal(got, msg) {
		s.Fail("dead", "dial %d: the connection does not carry what was written", c.n)
	}
}

// judge looks at what a dial returned.
func (c *call) judge() {
	s := c.s
	took := c.ended - c.begun
	if (c.conn == nil) == (c.err == nil) {
		s.Fail("result", "dial %d returns connection %v and error %v", c.n, c.conn != nil, c.err)
		return
	}
	if c.limit > 0 && took > c.limit {
		s.Fail("late", "dial %d (%s) returned after %v, limit %v: %v", c.n, c.mode, took, c.limit, c.err)
		return
	}
	if c.err != nil {
		s.K.Cover["failed "+c.mode] = true
		if c.ct != nil && !c.closedTr() {
			s.Fail("leak", "dial %d (%s) failed (%v) and leaves its connection open", c.n, c.mode, c.err)
			return
		}
		var t interface{ Timeout() bool }
		late := errors.As(c.err, &t) && t.Timeout()
		if late && (c.limit == 0 || took < c.limit) {
			s.Fail("early", "dial %d (%s) timed out after %v, limit %v: %v", c.n, c.mode, took, c.limit, c.err)
			return
		}
		if c.quick {
			s.Fail("early", "dial %d (%s) failed after %v, limit %v: %v", c.n, c.mode, took, c.limit, c.err)
			return
		}
		if c.limit > 0 && took == c.limit && !late && (c.mode == "silent" || c.mode == "deaf" || c.mode == "stalls" || c.mode == "unreachable") {
			s.Fail("error", "dial %d (%s) reports %v when its limit of %v has passed", c.n, c.mode, c.err, c.limit)
		}
		return
	}
	switch c.mode {
	case "silent", "deaf", "trickle", "alert", "unreachable", "refused":
		s.Fail("result", "dial %d succeeded with a peer that is %s", c.n, c.mode)
		return
	}
	if st := c.conn.ConnectionState().HandshakeState; st != mint.StateClientConnected {
		s.Fail("result", "dial %d succeeded in state %v", c.n, st)
		return
	}
	s.K.Cover["ok "+c.mode] = true
}

func dials(s *Sim, n int, udp bool) {
	s.Sched()
	s.K.JitterMax = 0 // so that the limit is exact
	cf := s.GenConf(Gen{DTLS: udp, PSK: 30, Auth: 20, NB: -1, SrvNB: -1, Incompat: s.CfgP(1, 10)})
	cf.C.NonBlocking, cf.S.NonBlocking = false, false
	host := cf.C.ServerName
	if s.CfgP(1, 2) && !cf.C.InsecureSkipVerify || s.CfgP(1, 4) {
		cf.C.ServerName = ""
	}
	cf.C.UseDTLS = false // dialling says which it is
	before := snapshot(cf.C)
	network := "tcp"
	if udp {
		network = "udp"
	}
	address := host
	if s.CfgP(3, 4) {
		address += ":4433"
	}
	var cs []*call
	byTask := map[*simrt.Task]*call{}
	s.K.OnDial = func(network, address string, lim time.Time) (net.Conn, error) {
		c := byTask[simrt.Cur()]
		if c == nil {
			// dialled from a goroutine: the calls differ in nothing that
			// is known here, so the first that waits gets it
			for _, x := range cs {
				if x.ct == nil && x.begun > 0 && !x.done {
					c = x
				}
			}
		}
		if c == nil || c.ct != nil {
			return nil, io.ErrClosedPipe
		}
		return c.open(network, address, lim)
	}
	node := newNode("c")
	if s.CfgP(1, 4) {
		node.Skew = s.Dur("cfg", time.Minute) - 30*time.Second
	}
	for i := 0; i < n; i++ {
		c := &call{s: s, n: i, udp: udp, cf: cf, skew: node.Skew, pol: &LinkPolicy{Seg: s.Cfg(3), MaxLat: 2 * time.Millisecond}}
		modes := []string{"prompt", "slow", "silent", "stalls", "deaf", "trickle", "hangs-up", "alert", "refused", "unreachable"}
		if udp {
			modes = []string{"prompt", "silent", "stalls", "trickle", "refused", "unreachable"}
		}
		c.mode = modes[s.Fault(len(modes))]
		c.way = s.CfgW(1, 3, 2, 1, 1)
		if c.way > 0 {
			c.limit = []time.Duration{time.Millisecond, 500 * time.Millisecond, 5 * time.Second, time.Minute}[s.CfgW(1, 3, 3, 1)] + s.Dur("cfg", time.Second)
		}
		switch c.mode {
		case "slow":
			c.pol.MaxLat = []time.Duration{100 * time.Millisecond, time.Second}[s.Net(2)]
			if c.way == 0 {
				c.delay = s.Dur("net", time.Hour)
			} else {
				c.delay = s.Dur("net", 2*c.limit)
			}
		case "prompt":
			if c.limit > 0 {
				c.delay = s.Dur("net", c.limit-c.limit/4)
			}
			c.quick = cf.E.OK && (c.limit == 0 || c.limit > 4*time.Second)
		default:
			c.delay = s.Dur("net", 2*time.Second)
			if s.NetP(1, 3) {
				c.delay = 0
			}
		}
		s.Param("dial %d: %s way=%d limit=%v delay=%v", i, c.mode, c.way, c.limit, c.delay)
		cs = append(cs, c)
		c.task = s.K.Go("dialler", node, func() {
			s.K.Sleep(time.Millisecond + s.Dur("op", time.Second))
			c.dial(cf.C, network, address)
		})
		byTask[c.task] = c
	}
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	for _, c := range cs {
		if !c.task.Finished() && c.limit > 0 {
			s.Fail("hang", "dial %d (%s, limit %v) never returned: %s", c.n, c.mode, c.limit, s.K.Where())
			return
		}
		// Over UDP nothing tells an end that the other one gave up.
		if c.udp && !c.cf.E.OK && (c.mode == "prompt" || c.mode == "slow") {
			continue
		}
		if !c.task.Finished() && (c.mode == "refused" || c.mode == "unreachable" || c.mode == "prompt" || c.mode == "slow") {
			s.Fail("hang", "dial %d (%s) never returned: %s", c.n, c.mode, s.K.Where())
			return
		}
	}
	idle := true
	for _, c := range cs {
		idle = idle && c.task.Finished()
	}
	if idle {
		for _, t := range s.K.Tasks() {
			if t.Spawned && !t.Finished() {
				s.Fail("leak", "a goroutine that a dial started never ends: %s", s.K.Where())
				return
			}
		}
	}
	if s.K.Limit {
		s.Fail("spin", "still busy after %d steps", s.K.Steps)
		return
	}
	if d := before.differs(snapshot(cf.C)); d != "" {
		s.Fail("config-changed", "dialling changed the configuration it was given: %s", d)
		return
	}
	for _, c := range cs {
		if c.limit > 0 && c.mode != "prompt" {
			s.NonTriv = true
		}
	}
}

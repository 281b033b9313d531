package engine

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"time"

	mint "github.com/bifurcation/mint"
)

// DSession is one DTLS connection.
type DSession struct {
	s               *Sim
	cf              *Conf
	C, S            *Peer
	CT, ST          *DConn
	Pol             *DPolicy
	CPlan, SPlan    AppPlan
	Early           [][]byte
	early           [][]byte // what was written early
	name            string
	tag             uint32
	MaxMsg          int
	HsBound         time.Duration // how long after the last fault the handshake may take
	Quiet           time.Duration // how long after that retransmission may go on
	NoApp           bool
	after           func(p *Peer)
	threads         bool // a writer thread of its own
	Hostile         bool // errors are legitimate
	doneAt          map[*Peer]time.Duration
	lastSend        time.Duration
	stopped         map[*Peer]bool
	bothDone        func()
	fired           bool
	Phases          bool // more writes come later
	onWrite         func(p *Peer, i int, err error)
	concurrentEarly bool
	patient         bool // errors of Read pass
	NoView          bool // what is negotiated depends on other connections
}

// DPol draws a datagram network.
func (s *Sim) DPol(lossy bool) *DPolicy {
	p := &DPolicy{MinLat: []time.Duration{time.Millisecond, 20 * time.Millisecond, 60 * time.Millisecond, 150 * time.Millisecond}[s.CfgW(4, 3, 2, 1)]}
	if !lossy {
		return p
	}
	p.MaxLat = []time.Duration{0, 30 * time.Millisecond, 300 * time.Millisecond, 2 * time.Second}[s.CfgW(2, 2, 2, 1)]
	p.Reorder = s.CfgP(2, 3)
	p.Loss = []int{0, 50, 200, 500, 800}[s.CfgW(2, 2, 3, 2, 1)]
	p.Dup = []int{0, 50, 300}[s.CfgW(2, 2, 1)]
	p.Oneway = s.CfgW(4, 1, 1)
	if s.CfgP(1, 4) {
		at := s.Dur("fault", 3*time.Second)
		p.Partitions = append(p.Partitions, [2]time.Duration{at, at + s.Dur("fault", 5*time.Second)})
	}
	if s.CfgP(1, 4) {
		// lose exactly some datagrams
		var lost [2]uint64
		lost[0], lost[1] = uint64(s.Fault(1<<16))&uint64(s.Fault(1<<16)), uint64(s.Fault(1<<16))&uint64(s.Fault(1<<16))
		p.Loss = 0
		p.Drop = func(h *DHalf, idx int, b []byte) bool {
			d := 0
			if h.c2s {
				d = 1
			}
			return idx < 16 && lost[d]>>uint(idx)&1 == 1
		}
	}
	return p
}

func (s *Sim) NewDSession(name string, tag uint32, cf *Conf, pol *DPolicy) *DSession {
	x := &DSession{s: s, cf: cf, Pol: pol, tag: tag, name: name, MaxMsg: 15000, HsBound: 20 * time.Second, Quiet: 20 * time.Second,
		doneAt: map[*Peer]time.Duration{}, stopped: map[*Peer]bool{}}
	x.CT, x.ST = NewDgram(s, name+"c", name+"s", cf.C.NonBlocking, cf.S.NonBlocking, pol)
	return x
}

func (x *DSession) Start() {
	x.C = NewPeer(x.s, x.name+"c", x.cf.C, x.CT, true)
	x.S = NewPeer(x.s, x.name+"s", x.cf.S, x.ST, false)
	x.C.other, x.S.other = x.S, x.C
	x.C.patID, x.S.patID = x.tag*2+1, x.tag*2+2
	for _, p := range []*Peer{x.C, x.S} {
		p := p
		p.MaxPolls = 20000
		p.StopHs = func() bool { return x.s.K.Now() > x.s.FaultEnd+x.HsBound }
		p.Go("run", func() { x.run(p) })
	}
}

func (x *DSession) run(p *Peer) {
	if p.Client && x.cf.E.EarlyOffer && len(x.Early) > 0 {
		var a mint.Alert
		if p.NB {
			a = p.Conn.Handshake()
			p.noteState()
		} else {
			a = p.Conn.HandshakeSetup()
		}
		send := func() {
			for i := range x.Early {
				if !p.Conn.Writable() {
					break
				}
				m := x.msg(p, len(x.Early[i]))
				x.early = append(x.early, m)
				p.Conn.Write(m)
				if x.s.OpP(1, 3) {
					x.s.K.Sleep(x.s.Dur("op", 200*time.Millisecond))
				}
			}
		}
		if a == mint.AlertNoAlert {
			if x.concurrentEarly {
				p.Go("early", send)
			} else {
				send()
			}
		}
	}
	p.Handshake()
	if p.Done {
		x.doneAt[p] = x.s.K.Now()
		if p.other.Done && !x.fired {
			x.fired = true
			if x.bothDone != nil {
				x.bothDone()
			}
		}
	}
	if x.after != nil {
		x.after(p)
	}
	if !p.Done {
		if p.HsErr != mint.AlertWouldBlock && p.HsErr != mint.AlertNoAlert || !p.NB {
			p.Tr.Close()
		}
		p.ReadDone, p.WriteDone = true, true
		return
	}
	plan := x.SPlan
	if p.Client {
		plan = x.CPlan
	}
	ops := plan.Ops
	if x.NoApp {
		ops = nil
	}
	if x.threads || !p.NB {
		p.Go("write", func() {
			for {
				for _, o := range ops {
					x.s.K.Yield("between")
					if !x.do(p, o) {
						p.WriteDone = true
						return
					}
				}
				if !x.Phases {
					break
				}
				x.s.K.Block("next phase", func() bool { return len(p.More) > 0 })
				ops, p.More = p.More, nil
			}
			p.WriteDone = true
		})
		ops = nil
	} else if len(ops) == 0 {
		p.WriteDone = true
	}
	x.loop(p, ops)
}

// single reports whether one thread does everything for this endpoint.
func (x *DSession) single(p *Peer) bool { return !x.threads && p.NB }

// loop polls a connected endpoint until nothing more can happen.
func (x *DSession) loop(p *Peer, ops []Op) {
	k := x.s.K
	buf := make([]byte, 40000)
	for {
		if x.single(p) && len(ops) == 0 && len(p.More) > 0 {
			ops, p.More = p.More, nil
		}
		if len(ops) > 0 && x.s.C.Intn("poll", 2) == 0 {
			o := ops[0]
			ops = ops[1:]
			if !x.do(p, o) {
				ops = nil
			}
			if len(ops) == 0 {
				p.WriteDone = true
			}
			continue
		}
		n, err := p.Conn.Read(buf)
		if n < 0 || n > len(buf) {
			x.s.Fail("read-count", "%s Read(%d) -> %d", p.Name, len(buf), n)
			break
		}
		if n > 0 {
			m := append([]byte{}, buf[:n]...)
			p.GotMsgs = append(p.GotMsgs, m)
			k.Logf("%s message %d #%08x", p.Name, n, uint32(hash64(m)))
			if !x.Hostile && !x.judgeMsg(p, m) {
				break
			}
		}
		if n == 0 && err == mint.AlertWouldBlock {
			if k.Now() > x.s.FaultEnd+x.HsBound+x.Quiet {
				x.stopped[p] = true
				break
			}
			if len(ops) > 0 {
				if !p.Tr.Readable() {
					k.Yield("poll")
				}
				continue
			}
			p.waitInput("read", func() bool { return p.kick || x.single(p) && len(p.More) > 0 })
			p.kick = false
			continue
		}
		if err != nil && x.patient {
			k.Logf("%s read error %v passes", p.Name, err)
			continue
		}
		if err != nil {
			p.ReadErr = err
			k.Logf("%s read error %v", p.Name, err)
			break
		}
	}
	p.ReadDone = true
	p.WriteDone = true
}

// msg is the next message of a peer: it says who wrote it and which it is.
func (x *DSession) msg(p *Peer, n int) []byte {
	b := p.next(n)
	if n >= 8 {
		binary.BigEndian.PutUint32(b, p.patID)
		binary.BigEndian.PutUint32(b[4:], uint32(len(p.Msgs)))
	}
	p.Msgs = append(p.Msgs, b)
	return b
}

func (x *DSession) do(p *Peer, o Op) bool {
	k := x.s.K
	switch o.Kind {
	case "write":
		n := o.N
		if n > x.MaxMsg {
			n = x.MaxMsg
		}
		if n == 0 {
			n = 1
		}
		b := x.msg(p, n)
		from := len(p.Tr.(*DConn).Out.Sent)
		g, err := p.Conn.Write(b)
		p.MsgAt = append(p.MsgAt, [2]int{from, len(p.Tr.(*DConn).Out.Sent)})
		k.Logf("%s Write(%d) -> %d %v", p.Name, len(b), g, err)
		if x.onWrite != nil {
			x.onWrite(p, len(p.Msgs)-1, err)
		}
		if (err != nil || g != len(b)) && !x.Hostile && !p.closed() {
			x.s.Fail("write-refused", "%s Write(%d bytes) -> %d, %v", p.Name, len(b), g, err)
			return false
		}
	case "keyupdate":
		err := p.Conn.SendKeyUpdate(o.Req)
		k.Logf("%s SendKeyUpdate(%v) -> %v", p.Name, o.Req, err)
		k.Probe("keyupdate")
		if err != nil {
			if !x.Hostile {
				x.s.Fail("keyupdate-failed", "%s SendKeyUpdate(%v): %v", p.Name, o.Req, err)
			}
			return false
		}
		p.kick = true // there may be a timer now
		p.KUs++
		if o.Req {
			p.KUReqs++
		}
	case "sleep":
		if x.threads || !p.NB {
			k.Sleep(o.D)
			break
		}
		// one thread: keep polling meanwhile
		end := k.Now() + o.D
		wake := false
		k.At(o.D, "nap", func() { wake = true })
		buf := make([]byte, 40000)
		for k.Now() < end {
			n, err := p.Conn.Read(buf)
			if n > 0 {
				m := append([]byte{}, buf[:n]...)
				p.GotMsgs = append(p.GotMsgs, m)
				k.Logf("%s message %d #%08x", p.Name, n, uint32(hash64(m)))
				if !x.Hostile && !x.judgeMsg(p, m) {
					return false
				}
				continue
			}
			if err == mint.AlertWouldBlock {
				p.waitInput("nap", func() bool { return wake })
				continue
			}
			if err != nil && x.patient {
				continue
			}
			if err != nil {
				p.ReadErr = err
				k.Logf("%s read error %v", p.Name, err)
				return false
			}
		}
	}
	return true
}

// judgeMsg: every message read is one its peer wrote.
func (x *DSession) judgeMsg(p *Peer, m []byte) bool {
	for _, w := range p.other.Msgs {
		if bytes.Equal(w, m) {
			return true
		}
	}
	if !p.Client && len(x.early) > 0 {
		// early messages may arrive joined and in any order
		at := make([]bool, len(m)+1)
		at[0] = true
		for i := range m {
			for _, w := range x.early {
				if at[i] && len(w) > 0 && bytes.HasPrefix(m[i:], w) {
					at[i+len(w)] = true
				}
			}
		}
		if at[len(m)] {
			return true
		}
	}
	what := "invented"
	for _, w := range p.other.Msgs {
		if len(w) > 8 && len(m) > 8 && bytes.Equal(w[:8], m[:8]) {
			what = "altered"
		}
	}
	x.s.Fail("message-"+what, "%s read a message of %d bytes (%s) that its peer never wrote like that", p.Name, len(m), short(m))
	return false
}

// count of a message among those read.
func (p *Peer) countMsg(m []byte) int {
	n := 0
	for _, g := range p.GotMsgs {
		if bytes.Equal(g, m) {
			n++
		}
	}
	return n
}

// FinishHs judges the handshake of a session whose network recovered.
func (x *DSession) FinishHs() {
	s, e := x.s, x.cf.E
	if s.Failed() || s.CheckPanics() {
		return
	}
	for _, p := range []*Peer{x.C, x.S} {
		if e.OK && !p.Done {
			if p.HsRet && p.HsErr != mint.AlertWouldBlock && p.HsErr != mint.AlertNoAlert {
				s.Fail("handshake-error", "%s failed with %v although the configurations are compatible and no datagram was altered (peer %v)", p.Name, p.HsErr, p.other.status())
				return
			}
			s.Fail("handshake-stuck", "%s has not completed %v after the last fault (state %s, %d timeouts; peer %v; network: %s; waiting: %s)", p.Name, s.K.Now()-s.FaultEnd, p.stateName(), p.Timeouts, p.other.status(), x.polString(), s.K.Where())
			return
		}
		if !e.OK && p.Done {
			s.Fail("handshake-incompatible", "%s completed although: %s", p.Name, e.Why)
			return
		}
		if p.Done && p.ReadErr != nil && p.ReadErr != io.EOF && !x.Hostile {
			s.Fail("read-error", "%s Read failed with %v", p.Name, p.ReadErr)
			return
		}
	}
	if e.OK {
		for _, p := range []*Peer{x.C, x.S} {
			if !x.NoView && !s.CheckView(p, e) {
				return
			}
			if x.stopped[p] {
				if ok, d := p.Conn.GetDTLSTimeout(); ok {
					s.Fail("retransmit-forever", "%s still has a timer (%v) %v after the last fault, both ends completed", p.Name, d, s.K.Now()-s.FaultEnd)
					return
				}
			}
		}
		if !x.NoView {
			s.checkDH(clearDHs(x.ST.Out.Sent), e)
		}
	}
}

// clearDHs is what datagrams carry in the clear of handshake messages that are
// not fragmented, as if they had been sent over a stream.
func clearDHs(sent [][]byte) (b []byte) {
	for _, p := range sent {
		for _, r := range drecords(p) {
			if r.epoch == 0 && r.typ == 22 && len(r.body) >= 12 && bytes.Equal(r.body[1:4], r.body[9:12]) {
				b = append(append(b, r.body[:4]...), r.body[12:]...)
			}
		}
	}
	return b
}

func (x *DSession) polString() string {
	p := x.Pol
	return fmt.Sprintf("latency %v..%v loss %d dup %d reorder %v", p.MinLat, p.MinLat+p.MaxLat, p.Loss, p.Dup, p.Reorder)
}

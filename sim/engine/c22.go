package engine

import (
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/simrt"
)

// C22: Close ends a connection, whatever its other threads are doing.

func init() {
	register("C22",
		Scenario{"tls", 10, closeStream},
		Scenario{"dtls", 4, closeDgram},
		Scenario{"listener", 4, closeListener},
	)
}

// closing is one call of Close.
type closing struct {
	p        *Peer
	when     int
	began    bool
	returned bool
	early    int  // bytes of early data handed over before
	accepted int  // bytes whose Write had succeeded before
	hsDone   bool // before
	again    bool
}

// run waits for its moment, closes, and tries what is left of the connection.
func (c *closing) run(s *Sim, now func() bool, early func() int) {
	k, p := s.K, c.p
	k.Block("moment to close", now)
	if s.FaultP(1, 2) {
		k.Sleep(s.Dur("fault", []time.Duration{time.Millisecond, 200 * time.Millisecond, 3 * time.Second}[s.Fault(3)]))
	}
	c.began, c.accepted, c.hsDone, c.early = true, len(p.Accepted), p.Done, early()
	k.Logf("%s Close()", p.Name)
	k.Fault("close")
	err := p.Conn.Close()
	c.returned = true
	k.Logf("%s Close() -> %v", p.Name, err)
	if !p.closed() {
		s.Fail("not-closed", "Close of %s returned %v but its transport is open", p.Name, err)
		return
	}
	if s.FaultP(1, 2) {
		p.Conn.Close() // must not hang or panic
	}
	c.again = true
	// let the others find out
	k.Block("others", func() bool { return p.HsRet && p.ReadDone && p.WriteDone })
	if p.Done {
		if n, err := p.Conn.Write(make([]byte, 1+s.Op(30))); err == nil {
			s.Fail("write-after-close", "%s Write succeeds (%d) after Close", p.Name, n)
			return
		}
		if s.OpP(1, 2) {
			if err := p.Conn.SendKeyUpdate(s.OpP(1, 2)); err == nil {
				s.Fail("keyupdate-after-close", "%s SendKeyUpdate succeeds after Close", p.Name)
				return
			}
		}
	} else if a := p.Conn.Handshake(); a == mint.AlertNoAlert && p.Connected() {
		s.Fail("handshake-after-close", "%s completes its handshake after Close", p.Name)
		return
	}
	buf := make([]byte, 100)
	for i := 0; ; i++ {
		n, err := p.Conn.Read(buf)
		if err != nil {
			break
		}
		if i > 100000 {
			s.Fail("read-after-close", "%s reads on for ever after Close (%d)", p.Name, n)
			return
		}
	}
}

func (s *Sim) moment(p *Peer, waits func() bool) func() bool {
	k := s.K
	switch s.FaultW(2, 3, 3, 2) {
	case 0:
		at := s.Dur("fault", []time.Duration{50 * time.Millisecond, 2 * time.Second, 10 * time.Second}[s.Fault(3)])
		hit := false
		k.At(at, "moment", func() { hit = true })
		return func() bool { return hit }
	case 1:
		// after so much traffic
		n := s.Fault([]int{10, 60, 400}[s.Fault(3)])
		return func() bool {
			switch t := p.Tr.(type) {
			case *Conn:
				return t.Activity >= n || p.WriteDone
			case *DConn:
				return len(t.Out.Sent) >= n || p.WriteDone
			}
			return true
		}
	case 2:
		return func() bool { return p.WriteDone }
	}
	return func() bool { return waits() || p.WriteDone }
}

func closeStream(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Auth: 15, NB: 25, Early: 20, Tickets: 40, BigCerts: s.CfgP(1, 3)})
	x := s.NewSession("", 1, cf, s.quickPol(), Judge{Stream: true})
	x.Quiet = true
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(1000)
	} else if s.CfgP(2, 3) {
		s.windows(x)
	}
	g := AppGen{MaxOps: 6, KU: s.CfgW(2, 1) * 10, Big: s.CfgP(1, 2), Sleep: time.Second}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	x.Start()
	s.K.StepLimit, x.C.MaxPolls, x.S.MaxPolls = 3000000, 100000, 100000
	var cl []*closing
	which := s.CfgW(3, 3, 2)
	for i, p := range []*Peer{x.C, x.S} {
		if which == 2 || which == i {
			c := &closing{p: p}
			cl = append(cl, c)
			t := p.Tr.(*Conn)
			p := p
			p.Go("close", func() {
				c.run(s, s.moment(p, func() bool { return t.Waits > 0 }), func() int {
					if p.Client {
						return len(x.early)
					}
					return 0
				})
			})
		}
	}
	if len(cl) == 1 && s.FaultP(1, 3) {
		// the other application does not read until then
		idle := cl[0].p.other
		from := s.Fault(3)
		x.beforeRead = func(p *Peer) {
			if p == idle {
				if from--; from < 0 {
					s.K.Block("idle", func() bool { return cl[0].p.closed() })
				}
			}
		}
	}
	s.K.Run(s.Failed)
	s.judgeClosed(x.C, x.S, cl)
	if s.Failed() {
		return
	}
	for _, c := range cl {
		o := c.p.other
		if !o.Done || closedItself(cl, o) {
			continue
		}
		want := c.accepted
		if c.p.Client && len(x.early) > 0 && cf.E.Early {
			want += c.early
		}
		if len(o.Got) < want {
			s.Fail("close-lost", "%s closed after Write had succeeded for %d bytes, over a reliable transport %s read only %d (then %v)", c.p.Name, want, o.Name, len(o.Got), o.ReadErr)
			return
		}
	}
	s.NonTriv = len(cl) > 0 && cl[0].began
}

func closedItself(cl []*closing, p *Peer) bool {
	for _, c := range cl {
		if c.p == p {
			return true
		}
	}
	return false
}

// judgeClosed: every call of an end that called Close has returned, and so
// have those of its peer, whose transport has ended.
func (s *Sim) judgeClosed(cp, sp *Peer, cl []*closing) {
	if s.Failed() || s.CheckPanics() {
		return
	}
	for _, c := range cl {
		if !c.began {
			continue
		}
		if !c.returned || !c.again {
			s.Fail("close-hangs", "Close of %s does not return: %s", c.p.Name, s.K.Where())
			return
		}
		if !c.p.HsRet || !c.p.ReadDone || !c.p.WriteDone {
			s.Fail("call-hangs", "%s was closed but a call on it does not return (handshake %v read %v write %v): %s", c.p.Name, c.p.HsRet, c.p.ReadDone, c.p.WriteDone, s.K.Where())
			return
		}
		if o := c.p.other; !o.DTLS && (!o.HsRet || !o.ReadDone || !o.WriteDone) {
			s.Fail("peer-hangs", "%s closed, its peer's transport has ended but a call there does not return (handshake %v read %v write %v): %s", c.p.Name, o.HsRet, o.ReadDone, o.WriteDone, s.K.Where())
			return
		}
	}
}

func closeDgram(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 40, Auth: 15, NB: 50, Tickets: 20})
	x := s.NewDSession("", 1, cf, s.DPol(s.CfgP(1, 2)))
	x.Hostile = true
	x.threads = s.CfgP(1, 2)
	x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(6, 10), s.dgramPlan(6, 10)
	x.Start()
	var cl []*closing
	which := s.CfgW(3, 3, 2)
	for i, p := range []*Peer{x.C, x.S} {
		if which == 2 || which == i {
			c := &closing{p: p}
			cl = append(cl, c)
			p := p
			p.Go("close", func() {
				c.run(s, s.moment(p, func() bool { return p.Done }), func() int { return 0 })
				p.kick = true
			})
		}
	}
	s.K.Run(s.Failed)
	s.judgeClosed(x.C, x.S, cl)
	s.NonTriv = len(cl) > 0 && cl[0].began
}

// closeListener: closing a Listener ends Accept and leaves the connections it
// accepted alone.
func closeListener(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 30, Auth: 10, Tickets: 30})
	cf.C.NonBlocking, cf.S.NonBlocking = false, false
	h := &hall{s: s, got: map[*simrt.Task]*Session{}}
	var l interface {
		Close() error
	}
	ln, err := mint.NewListener(h, cf.S)
	if err != nil {
		s.Fail("listen", "NewListener: %v", err)
		return
	}
	l = ln
	n := 1 + s.Cfg(3)
	type end struct {
		x    *Session
		sent int
		got  []byte
	}
	var ends []*end
	accepted, accErr, accDone, closedAll := 0, error(nil), false, false
	late := 0
	srv := &simrt.Node{Name: "listener"}
	s.K.Go("accept", srv, func() {
		for {
			was := h.closed
			c, err := ln.Accept()
			if c != nil && err == nil {
				accepted++
				if was {
					late++
				}
				s.K.Go("serve", srv, func() {
					buf := make([]byte, 5000)
					for {
						k, err := c.Read(buf)
						if k > 0 {
							if _, err := c.Write(buf[:k]); err != nil {
								return
							}
						}
						if err != nil {
							c.Close()
							return
						}
					}
				})
				continue
			}
			if h.closed && c == nil {
				accErr, accDone = err, true
				return
			}
			if err == nil {
				s.Fail("accept-nil", "Accept returned neither a connection nor an error")
				return
			}
		}
	})
	for i := 0; i < n; i++ {
		e := &end{}
		e.x = s.NewSession(string(rune('a'+i)), uint32(i+1), cf, s.quickPol(), Judge{})
		ends = append(ends, e)
		p := NewPeer(s, e.x.name+"c", cf.C.Clone(), e.x.CT, true)
		e.x.C = p
		delay := s.Dur("op", 2*time.Second)
		rounds := 1 + s.Op(4)
		s.K.At(delay, "dial", func() { h.q = append(h.q, e.x) })
		p.Go("client", func() {
			s.K.Sleep(delay)
			p.Handshake()
			if p.Done {
				buf := make([]byte, 5000)
				for r := 0; r < rounds; r++ {
					b := p.next(1 + s.Op(3000))
					if _, err := p.Conn.Write(b); err != nil {
						p.WriteErr = err
						break
					}
					e.sent += len(b)
					for len(e.got) < e.sent {
						k, err := p.Conn.Read(buf)
						e.got = append(e.got, buf[:k]...)
						if err != nil {
							p.ReadErr = err
							break
						}
					}
					if p.ReadErr != nil {
						break
					}
					s.K.Sleep(s.Dur("op", time.Second))
				}
			}
			p.Conn.Close()
			p.WriteDone = true
		})
	}
	s.K.Go("closer", srv, func() {
		s.K.Sleep(s.Dur("fault", []time.Duration{20 * time.Millisecond, 3 * time.Second, 8 * time.Second}[s.Fault(3)]))
		s.K.Fault("close")
		l.Close()
		closedAll = true
		if s.FaultP(1, 3) {
			l.Close()
		}
		if c, err := ln.Accept(); err == nil {
			s.Fail("accept-after-close", "Accept returns a connection (%v) after Close", c != nil)
		}
	})
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	if !closedAll || !accDone {
		s.Fail("accept-hangs", "the listener was closed (Close returned %v) but Accept does not return: %s", closedAll, s.K.Where())
		return
	}
	if accErr == nil {
		s.Fail("accept-silent", "Accept returned neither a connection nor an error after Close")
		return
	}
	for _, e := range ends {
		p := e.x.C
		if p.Done && (p.ReadErr != nil || p.WriteErr != nil || len(e.got) != e.sent) {
			s.Fail("accepted-broken", "%s was accepted before the listener was closed but then failed: read %d of %d, %v, %v", p.Name, len(e.got), e.sent, p.ReadErr, p.WriteErr)
			return
		}
	}
	s.NonTriv = accepted > 0
}

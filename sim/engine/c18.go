package engine

import (
	"errors"
	"io"
	"os"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/simrt"
)

func init() {
	register("C18",
		Scenario{"stream", 10, streamFaults},
		Scenario{"deadlines", 3, streamDeadlines},
		Scenario{"datagrams", 3, dgramFaults},
		Scenario{"datagrams-handshake", 3, dgramHsFaults},
	)
}

// protected is what one endpoint encrypted, in order.
type protected struct {
	app int // bytes of application data, -1: another type
}

// appWithin is how much application data the complete records among the
// first n bytes of a direction carry.
func appWithin(wire []byte, n int, seals []protected) int {
	if n > len(wire) {
		n = len(wire)
	}
	recs, _ := records(wire[:n])
	sum, k := 0, 0
	for _, r := range recs {
		if r[0] != 23 {
			continue
		}
		if k < len(seals) && seals[k].app > 0 {
			sum += seals[k].app
		}
		k++
	}
	return sum
}

func (s *Sim) faultPos() int {
	switch s.C.Weighted("fault", 4, 3, 2) {
	case 1:
		return 2000 + s.Fault(4000)
	case 2:
		return 3000 + s.Fault(60000)
	}
	return s.Fault(3000)
}

// streamFaults breaks the transport of one end at some byte.
func streamFaults(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Auth: 20, NB: 40, Tickets: 50, Cookie: 10})
	x := s.NewSession("", 1, cf, s.quickPol(), Judge{Stream: true})
	x.Quiet = true
	g := AppGen{MaxOps: 8, KU: s.CfgW(2, 1) * 10, Big: s.CfgP(1, 2), Sleep: time.Second}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	seals := map[string][]protected{}
	s.K.OnSeal = func(e simrt.Seal) {
		if len(e.AAD) != 5 || e.AAD[0] != 23 {
			return
		}
		p := protected{-1}
		if n := len(e.Plain); n > 0 && e.Plain[n-1] == 23 {
			p.app = n - 1
		}
		seals[e.Node] = append(seals[e.Node], p)
	}
	client := s.CfgP(1, 2)
	ft, other := x.CT, x.ST
	if !client {
		ft, other = x.ST, x.CT
	}
	pos := s.faultPos()
	kind := []string{"read-error", "read-eof", "read-data-and-error", "read-timeout", "read-data-and-timeout",
		"write-error", "write-timeout", "reset", "close"}[s.Fault(9)]
	s.Param("fault %s at %d on the %s's side", kind, pos, map[bool]string{true: "client", false: "server"}[client])
	fired := false
	transient := false
	hit := func() {
		fired = true
		s.K.Fault(kind)
	}
	permanent := errReset
	switch kind {
	case "read-error", "read-eof", "read-data-and-error":
		if kind == "read-eof" || kind == "read-data-and-error" && s.FaultP(1, 2) {
			permanent = io.EOF
		}
		ft.ReadCut = func(c *Conn, n int) (int, error) {
			if fired || c.ReadBytes+n < pos {
				return n, nil
			}
			hit()
			n = max(0, pos-c.ReadBytes)
			c.Broken = permanent
			if kind == "read-data-and-error" || n == 0 {
				return n, permanent
			}
			return n, nil
		}
	case "read-timeout", "read-data-and-timeout":
		transient = true
		left := 1 + s.Fault(3)
		next := pos
		ft.ReadCut = func(c *Conn, n int) (int, error) {
			if left == 0 || c.ReadBytes+n < next {
				return n, nil
			}
			left--
			hit()
			n = max(0, min(n, next-c.ReadBytes))
			next = c.ReadBytes + n + s.Fault(200)
			if kind == "read-timeout" {
				n = 0
			}
			return n, os.ErrDeadlineExceeded
		}
	case "write-error", "write-timeout":
		written := 0
		ft.WriteFault = func(c *Conn, n int) (int, error) {
			if fired && kind == "write-error" {
				return 0, errReset
			}
			if fired || written+n < pos {
				written += n
				return n, nil
			}
			hit()
			n = min(max(0, pos-written), n-1)
			switch kind {
			case "write-timeout":
				return n, os.ErrDeadlineExceeded
			}
			return n, errReset
		}
	case "reset":
		s.K.At(s.Dur("fault", 10*time.Second), "reset", func() {
			hit()
			ft.In.rst, ft.Out.rst = errReset, errReset
		})
	case "close":
		s.K.At(s.Dur("fault", 10*time.Second), "close", func() {
			hit()
			s.K.Go("closer", nil, func() {
				if client {
					x.C.Conn.Close()
				} else {
					x.S.Conn.Close()
				}
			})
		})
	}
	x.patient = transient
	again := s.CfgP(1, 2)
	x.onWriteErr = func(p *Peer, err error) {
		if !again || s.Failed() {
			return
		}
		// Write says that it keeps failing
		for i := 1 + s.Op(2); i > 0; i-- {
			n, err2 := p.Conn.Write(Pattern(1000, 0, 1+s.Op(100)))
			if err2 == nil {
				s.Fail("write-after-failure", "%s Write reports success for %d bytes although the record before was not sent whole (%v)", p.Name, n, err)
			}
			s.K.Sleep(s.Dur("op", time.Second))
		}
	}
	var late []*simrt.Task
	x.after = func(p *Peer) {
		if p.Done || !s.OpP(2, 3) {
			return
		}
		late = append(late, p.Go("after failure", func() { s.useless(p) }))
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	f := x.S
	if client {
		f = x.C
	}
	// the call that met the failure, and those after it, must have returned
	if fired && (ft.Broken != nil || kind == "reset" || kind == "close") {
		if !f.HsRet || f.Done && !f.ReadDone {
			s.Fail("blocked-for-ever", "%s does not return although its transport failed (%s): %s", f.Name, kind, s.K.Where())
			return
		}
	}
	if f.Done && fired && transient && !x.C.closed() && !x.S.closed() {
		// the time-outs are over: nothing may be missing
		for _, p := range []*Peer{x.C, x.S} {
			if p.Done && p.ReadDone && p.ReadErr != nil {
				s.Fail("timeout-fatal", "%s Read fails with %v after a time-out that was lifted, %d of %d bytes read", p.Name, p.ReadErr, len(p.Got), len(x.accepted(p)))
				return
			}
			if p.Done && p.other.Done && len(p.Got) != len(x.accepted(p)) {
				s.Fail("timeout-lost", "%s read %d of %d bytes after a time-out that was lifted; %s", p.Name, len(p.Got), len(x.accepted(p)), s.K.Where())
				return
			}
		}
	}
	x.closeAll()
	if s.Failed() || s.CheckPanics() {
		return
	}
	for _, t := range late {
		if !t.Finished() {
			s.Fail("blocked-for-ever", "a call after a failed handshake never returns: %s", s.K.Where())
			return
		}
	}
	for _, p := range []*Peer{x.C, x.S} {
		if !p.HsRet || !p.ReadDone || !p.WriteDone {
			s.Fail("blocked-for-ever", "%s does not return although both transports are closed: %s", p.Name, s.K.Where())
			return
		}
		// success means that the transport has taken it
		out := p.Tr.(*Conn).Out
		if h := appWithin(out.SentAll, len(out.SentAll), seals[p.Node.Name]); len(p.Accepted) > h {
			s.Fail("write-not-handed-over", "%s reported success for %d bytes, its transport took complete records with %d", p.Name, len(p.Accepted), h)
			return
		}
	}
	// what arrived whole before the end is not lost
	if fired && f.Done && f.other.Done && (ft.Broken != nil) && f.WriteErr == nil {
		if h := appWithin(other.Out.SentAll, ft.ReadBytes, seals[f.other.Node.Name]); len(f.Got) < h {
			s.Fail("received-lost", "%s received complete records with %d bytes before its transport failed (%v) but returned only %d", f.Name, h, ft.Broken, len(f.Got))
			return
		}
	}
	s.NonTriv = fired
}

// useless calls what is of no use on a connection whose handshake failed: the
// calls report that, and return.
func (s *Sim) useless(p *Peer) {
	for i := 1 + s.Op(4); i > 0 && !s.Failed(); i-- {
		what, n := "Write", 0
		var err error
		switch s.OpW(3, 2, 2, 1) {
		case 0:
			n, err = p.Conn.Write(Pattern(1001, 0, 1+s.Op(300)))
		case 1:
			what, err = "SendKeyUpdate", p.Conn.SendKeyUpdate(s.OpP(1, 2))
		case 2:
			what = "Read"
			n, err = p.Conn.Read(make([]byte, 1+s.Op(300)))
		default:
			if a := p.Conn.Handshake(); a != mint.AlertNoAlert {
				err = a
			}
			what = "Handshake"
		}
		s.K.Logf("%s %s after failure -> %d, %v", p.Name, what, n, err)
		if err == nil || n != 0 {
			s.Fail("success-after-failure", "%s %s reports success (%d, %v) after the handshake failed", p.Name, what, n, err)
			return
		}
		s.K.Sleep(s.Dur("op", time.Millisecond))
	}
}

// streamDeadlines: an application that uses read deadlines loses nothing.
func streamDeadlines(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Auth: 10, NB: 20, Tickets: 20})
	x := s.NewSession("", 1, cf, s.quickPol(), Judge{Stream: true, KU: true})
	g := AppGen{MaxOps: 8, KU: s.CfgW(2, 1) * 10, Big: s.CfgP(1, 2), Sleep: 3 * time.Second}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	x.CPlan.Single, x.SPlan.Single = false, false
	x.patient = true
	x.beforeRead = func(p *Peer) {
		if len(p.Got) >= len(x.accepted(p)) && p.other.WriteDone || s.C.Prob("poll", 1, 3) {
			p.Conn.SetReadDeadline(time.Time{})
			return
		}
		p.Conn.SetReadDeadline(time.Now().Add(s.Dur("poll", time.Second)))
	}
	x.Start()
	s.K.Run(s.Failed)
	x.Finish()
	s.NonTriv = x.timeouts > 0
	if x.timeouts > 0 {
		s.K.Faults["deadline"] += x.timeouts
	}
}

// dgramFaults: errors of a datagram socket pass.
func dgramFaults(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 30, Auth: 10, NB: 60, Tickets: 20})
	x := s.NewDSession("", 1, cf, s.DPol(false))
	x.Hostile = true
	x.threads = s.CfgP(1, 2)
	x.Phases = true
	hits := 0
	type sent struct {
		p *Peer
		i int
	}
	var failed []sent
	x.onWrite = func(p *Peer, i int, err error) {
		if err != nil {
			failed = append(failed, sent{p, i})
		}
	}
	x.patient = true
	calm := false
	x.bothDone = func() {
		s.K.At(2*time.Second, "faults", func() {
			for _, c := range []*DConn{x.CT, x.ST} {
				c := c
				c.WriteErr = func([]byte) error {
					if !calm && s.FaultP(1, 4) {
						hits++
						s.K.Fault("send-error")
						return errIO
					}
					return nil
				}
				c.ReadErr = func() error {
					if !calm && s.FaultP(1, 4) {
						hits++
						s.K.Fault("receive-error")
						if s.FaultP(1, 2) {
							return os.ErrDeadlineExceeded
						}
						return errIO
					}
					return nil
				}
			}
			for _, p := range []*Peer{x.C, x.S} {
				p.More = s.dgramPlan(8, 0)
			}
		})
		s.K.At(9*time.Second, "calm", func() { calm = true })
		s.K.At(10*time.Second, "after", func() {
			for _, p := range []*Peer{x.C, x.S} {
				p.More = append(p.More, Op{Kind: "write", N: 9 + s.Op(200)})
			}
		})
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() || !x.C.Done || !x.S.Done {
		return
	}
	for _, p := range []*Peer{x.C, x.S} {
		for _, m := range p.GotMsgs {
			if !x.judgeMsg(p, m) {
				return
			}
		}
		for i, m := range p.Msgs {
			want := 1
			for _, f := range failed {
				if f.p == p && f.i == i {
					want = 0
				}
			}
			if n := p.other.countMsg(m); n != want {
				s.Fail("message-count", "%s read message %d of %s %d times; Write succeeded: %v; only socket calls failed, now and then", p.other.Name, i+1, p.Name, n, want == 1)
				return
			}
		}
	}
	s.NonTriv = hits > 0
}

// dgramHsFaults: socket calls of a DTLS handshake fail. A failed call either
// surfaces or costs no more than a lost datagram would.
func dgramHsFaults(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 30, Resume: 20, Auth: 30, NB: 70, Tickets: 30, Cookie: 20, BigCerts: s.CfgP(1, 4)})
	s.FaultEnd = s.Dur("fault", 2*time.Second)
	pol := s.DPol(s.CfgP(1, 3))
	x := s.NewDSession("", 1, cf, pol)
	x.Hostile = true
	x.CPlan, x.SPlan = AppPlan{Ops: s.dgramPlan(3, 0)}, AppPlan{Ops: s.dgramPlan(3, 0)}
	x.Start()
	hits := 0
	acks := map[string]bool{}
	s.K.OnSeal = func(e simrt.Seal) {
		n := len(e.Plain)
		for n > 0 && e.Plain[n-1] == 0 {
			n--
		}
		acks[e.Node] = n > 0 && e.Plain[n-1] == 25
	}
	for _, p := range []*Peer{x.C, x.S} {
		p := p
		c := p.Tr.(*DConn)
		left, from := s.Fault(3), s.Fault(24)
		if s.FaultP(1, 2) {
			from = s.Fault(5)
		}
		if s.FaultP(1, 4) {
			left = 40
		}
		n, lost := 0, 0
		c.WriteErr = func(b []byte) error {
			if p.HsRet || left == 0 {
				return nil
			}
			if n++; n <= from || s.FaultP(1, 4) {
				return nil
			}
			left--
			hits++
			s.K.Fault("send-error")
			if acks[simrt.Cur().Node.Name] && b[0] != 22 || b[0] == 25 || b[0] == 21 {
				s.K.Probe("failed to send an ACK or alert")
			} else {
				lost++
			}
			return errIO
		}
		rleft, rfrom, rn := s.Fault(2), s.Fault(24), 0
		c.ReadErr = func() error {
			if p.HsRet || rleft == 0 {
				return nil
			}
			if rn++; rn <= rfrom {
				return nil
			}
			rleft--
			hits++
			s.K.Fault("receive-error")
			if s.FaultP(1, 2) {
				return os.ErrDeadlineExceeded
			}
			return errIO
		}
		p.onPoll = func(a mint.Alert) {
			if lost > 0 && (a == mint.AlertNoAlert || a == mint.AlertWouldBlock || a == mint.AlertStatelessRetry) {
				s.Fail("failure-hidden", "%s: the socket refused %d datagrams during Handshake, which returned %v", p.Name, lost, a)
			}
			lost = 0
		}
	}
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	s.NonTriv = hits > 0
	if x.C.Done && x.S.Done {
		s.K.Probe("completed in spite of failures")
		s.CheckView(x.C, cf.E)
		s.CheckView(x.S, cf.E)
	}
}

func isTimeout(err error) bool {
	return errors.Is(err, os.ErrDeadlineExceeded)
}

var _ = mint.AlertNoAlert

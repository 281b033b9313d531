package engine

import (
	"encoding/binary"
	"net"
	"runtime"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

func init() {
	register("C09",
		Scenario{"noise", 4, func(s *Sim) { noise(s, false) }},
		Scenario{"noise-dtls", 4, func(s *Sim) { noise(s, true) }},
		Scenario{"path", 6, func(s *Sim) { warpedPath(s, false) }},
		Scenario{"path-dtls", 6, func(s *Sim) { warpedPath(s, true) }},
		Scenario{"server-with-keys", 8, func(s *Sim) { warpedPeer(s, true) }},
		Scenario{"client-with-keys", 8, func(s *Sim) { warpedPeer(s, false) }},
		Scenario{"plaintext", 3, func(s *Sim) { warpedPlain(s, false) }},
		Scenario{"plaintext-dtls", 6, func(s *Sim) { warpedPlain(s, true) }},
		Scenario{"flood", 1, func(s *Sim) { flood(s, false) }},
		Scenario{"flood-dtls", 1, func(s *Sim) { flood(s, true) }},
		Scenario{"flood-client", 1, func(s *Sim) { floodKeys(s, true) }},
		Scenario{"flood-server", 1, func(s *Sim) { floodKeys(s, false) }},
	)
}

// victim is a mint endpoint in the hands of an application that meets
// whatever the network holds.
type victim struct {
	s     *Sim
	p     *Peer
	tasks []*simrt.Task
	ended func() bool
	early bool
}

func (s *Sim) newVictim(p *Peer, early bool, ended func() bool) *victim {
	v := &victim{s: s, p: p, early: early, ended: ended}
	p.MaxPolls = 3000
	v.tasks = append(v.tasks, p.Go("user", v.user))
	return v
}

func (v *victim) read(buf []byte) (int, error) {
	n, err := v.p.Read(buf, nil)
	if n < 0 || n > len(buf) {
		v.s.Fail("read-count", "%s Read(%d bytes) -> %d", v.p.Name, len(buf), n)
	}
	return n, err
}

func (v *victim) user() {
	s, p := v.s, v.p
	if v.early {
		a := mint.AlertNoAlert
		if p.NB {
			a = p.Conn.Handshake()
		} else {
			a = p.Conn.HandshakeSetup()
		}
		for i := s.Op(4); i > 0 && a == mint.AlertNoAlert; i-- {
			p.Conn.Write(Pattern(5, 0, 1+s.Op(300)))
		}
	}
	p.Handshake()
	if !p.Done {
		if p.HsErr == mint.AlertWouldBlock {
			if v.ended() && p.NB {
				s.Fail("never-returns", "%s goes on asking for input after the transport has ended (state %s)", p.Name, p.stateName())
			}
			return
		}
		// an application that will not take no for an answer
		buf := make([]byte, 100)
		for i := s.Op(4); i > 0; i-- {
			switch s.Op(4) {
			case 0:
				p.Conn.Handshake()
			case 1:
				p.Conn.Read(buf)
			case 2:
				p.Conn.Write(buf)
			case 3:
				p.Conn.SendKeyUpdate(true)
			}
		}
		return
	}
	s.K.Probe("completed")
	size := []int{1, 100, 70000}[s.Op(3)]
	if !p.NB || s.OpP(1, 3) {
		v.tasks = append(v.tasks, p.Go("reader", func() { v.reader(size) }))
		for i := s.Op(6); i > 0; i-- {
			if !v.op() {
				return
			}
		}
		return
	}
	buf := make([]byte, size)
	ops, late := s.Op(6), 0
	for i := 0; i < 400000; i++ {
		if ops > 0 && s.OpP(1, 2) {
			ops--
			if !v.op() {
				return
			}
		}
		n, err := p.Conn.Read(buf)
		if n == 0 && err == mint.AlertWouldBlock {
			if p.Tr.Readable() && v.ended() {
				if late++; late == 50 {
					break
				}
			}
			p.waitInput("read", nil)
			continue
		}
		if err != nil && s.OpP(2, 3) {
			s.K.Logf("%s read error %v", p.Name, err)
			return
		}
		if err != nil && v.ended() {
			return
		}
	}
	if v.ended() {
		s.Fail("never-returns", "%s goes on reading after the transport has ended", p.Name)
	}
}

func (v *victim) reader(size int) {
	buf := make([]byte, size)
	for i := 0; ; i++ {
		n, err := v.read(buf)
		if err != nil {
			v.s.K.Logf("%s read error %v", v.p.Name, err)
			if v.ended() || i > 40 || v.s.OpP(1, 2) {
				return
			}
		}
		if i > 20000 {
			v.s.Fail("never-returns", "%s returned %d times from Read, last with %d, %v", v.p.Name, i, n, err)
			return
		}
	}
}

func (v *victim) op() bool {
	s, p := v.s, v.p
	var err error
	switch s.OpW(4, 2, 1, 1, 1, 1) {
	case 0:
		_, err = p.Conn.Write(Pattern(6, 0, 1+s.Op(3000)))
	case 1:
		if s.OpP(1, 2) {
			err = p.Conn.SendKeyUpdate(s.OpP(1, 2))
		}
	case 2:
		s.K.Sleep(s.Dur("op", 2*time.Second))
	case 3:
		p.Conn.ComputeExporter("EXPORTER-x", Pattern(1, 0, s.Op(30)), s.Op(100))
	case 4:
		p.Conn.ConnectionState()
		p.Conn.GetHsState()
	case 5:
		_, err = p.Conn.Write(nil)
	}
	return err == nil || s.OpP(1, 4)
}

// finish judges the victims of a run.
func (s *Sim) finishVictims(vs ...*victim) {
	if s.CheckPanics() || s.Failed() {
		return
	}
	for _, v := range vs {
		for _, t := range v.tasks {
			if !t.Finished() && v.ended() && !s.K.Limit {
				s.Fail("never-returns", "a call of %s does not return although the transport has ended: %s", v.p.Name, s.K.Where())
				return
			}
		}
	}
	if s.K.Limit {
		s.Fail("spin", "endpoints are still busy after %d steps", s.K.Steps)
	}
}

// meter measures what a run retains.
type meter struct {
	s     *Sim
	m0    runtime.MemStats
	stmts int
}

func (s *Sim) meter() *meter {
	m := &meter{s: s, stmts: s.K.Stmts()}
	runtime.GC()
	runtime.GC() // what pools hold goes at the second
	runtime.ReadMemStats(&m.m0)
	return m
}

// check compares with what arrived.  The figures hold what the simulator
// itself keeps of what was sent and the answers to it, and the bounds lie far
// above what has been seen, so that the outcome is as repeatable as the run.
func (m *meter) check(received, inputs int) {
	var m1 runtime.MemStats
	runtime.GC()
	runtime.GC() // what pools hold goes at the second
	runtime.ReadMemStats(&m1)
	if kept := int64(m1.HeapAlloc) - int64(m.m0.HeapAlloc); kept > int64(8<<20+100*received) {
		m.s.Fail("memory", "more than %d bytes are retained after %d bytes of input", 8<<20+100*received, received)
	}
	if most := uint64(128<<20 + 400000*inputs + 400*received); m1.TotalAlloc-m.m0.TotalAlloc > most {
		m.s.Fail("memory", "more than %d bytes are allocated for %d records or datagrams of input (%d bytes)", most, inputs, received)
	}
	if most := 5000000 + 30000*inputs + 20*received; m.s.K.Stmts()-m.stmts > most {
		m.s.Fail("work", "more than %d statements were executed for %d records or datagrams of input (%d bytes)", most, inputs, received)
	}
}

// taps fill a corpus with genuine traffic of an earlier connection.
func (s *Sim) corpus(cf *Conf) (c2s, s2c [][]byte) {
	if cf.C.UseDTLS {
		x := s.NewDSession("k", 8, cf, s.quickDPol())
		x.Hostile = true
		x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(2, 0), s.dgramPlan(2, 0)
		x.Start()
		s.K.Run(s.Failed)
		x.CT.Close()
		x.ST.Close()
		s.K.Run(s.Failed)
		return x.CT.Out.Sent, x.ST.Out.Sent
	}
	x := s.NewSession("k", 8, cf, &LinkPolicy{}, Judge{})
	x.Quiet = true
	x.CPlan, x.SPlan = s.GenApp(AppGen{MaxOps: 2}), s.GenApp(AppGen{MaxOps: 2})
	x.Start()
	s.K.Run(s.Failed)
	x.CT.Close()
	x.ST.Close()
	s.K.Run(s.Failed)
	return x.CT.Out.Wire, x.ST.Out.Wire
}

// noise: an endpoint whose peer is a source of bytes, some of them taken from
// an earlier connection.
func noise(s *Sim, dtls bool) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: dtls, PSK: 30, Resume: 30, Early: 40, Auth: 30, NB: 60, Cookie: 20, Incompat: s.CfgP(1, 6), Tickets: 20})
	c2s, s2c := s.corpus(cf)
	if s.CheckPanics() {
		return
	}
	client := s.CfgP(1, 2)
	mine := c2s
	if client {
		mine = s2c
	}
	pick := func() []byte {
		if s.FaultP(1, 8) {
			all := append(append([][]byte{}, c2s...), s2c...)
			mine = all
		}
		if len(mine) == 0 {
			return s.rnd(8)
		}
		i := s.Fault(len(mine))
		if s.FaultP(1, 2) {
			i = s.Fault(min(len(mine), 4))
		}
		return append([]byte{}, mine[i]...)
	}
	n := 1 + s.Fault(12)
	got := 0
	ended := false
	name := map[bool]string{true: "c", false: "s"}[client]
	var p *Peer
	var send func([]byte)
	if dtls {
		ct, st := NewDgram(s, "c", "s", cf.C.NonBlocking, cf.S.NonBlocking, s.quickDPol())
		me, other := ct, st
		if !client {
			me, other = st, ct
		}
		cfg := cf.C
		if !client {
			cfg = cf.S
		}
		p = NewPeer(s, name, cfg, me, client)
		send = func(b []byte) {
			if len(b) > 0 {
				other.Out.Deliver(b, 0, true)
			}
		}
	} else {
		pol := s.quickPol()
		ct, st := NewStream(s, "c", "s", cf.C.NonBlocking, cf.S.NonBlocking, pol)
		me, other := ct, st
		cfg := cf.C
		if !client {
			me, other, cfg = st, ct, cf.S
		}
		p = NewPeer(s, name, cfg, me, client)
		send = func(b []byte) { other.Out.Inject(b, pol) }
		defer func() { _ = other }()
	}
	at := time.Duration(0)
	for i := 0; i < n; i++ {
		at += s.Dur("fault", 3*time.Second)
		s.K.At(at, "noise", func() {
			var bs [][]byte
			switch {
			case dtls && s.FaultP(3, 5):
				s.K.Fault("warped-datagram")
				bs = [][]byte{s.warpDgram(pick())}
			case !dtls && s.FaultP(3, 5):
				s.K.Fault("warped-record")
				if r := pick(); len(r) >= 5 {
					bs = s.warpRecord(r)
				}
			case s.FaultP(1, 2):
				s.K.Fault("replayed")
				bs = [][]byte{pick()}
			default:
				s.K.Fault("random-bytes")
				bs = [][]byte{s.rnd(1 + s.Fault(300))}
			}
			for _, b := range bs {
				got += len(b)
				send(b)
			}
		})
	}
	s.K.At(at+s.Dur("fault", 10*time.Second), "end", func() {
		ended = true
		p.Tr.Close()
	})
	v := s.newVictim(p, client && cf.C.AllowEarlyData, func() bool { return ended })
	s.K.Run(s.Failed)
	s.finishVictims(v)
	s.NonTriv = true
}

// warpedPath: two honest ends; what passes between them is bent.
func warpedPath(s *Sim, dtls bool) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: dtls, PSK: 40, Resume: 30, Early: 40, Auth: 30, NB: 60, Cookie: 25, Tickets: 40})
	rate := []int{5, 20, 50}[s.Fault(3)]
	left := 1 + s.FaultW(4, 2, 1)*s.Fault(20)
	from := s.Fault(2) * s.Fault(10)
	ended := false
	var c, v *Peer
	got := 0
	n := 0
	turn := func() bool {
		n++
		if left <= 0 || n <= from || !s.FaultP(rate, 100) {
			return false
		}
		left--
		return true
	}
	if dtls {
		ct, st := NewDgram(s, "c", "s", cf.C.NonBlocking, cf.S.NonBlocking, s.quickDPol())
		for _, h := range []*DHalf{ct.Out, st.Out} {
			h := h
			h.Tap = func(i int, b []byte) bool {
				got += len(b)
				if !turn() {
					return false
				}
				s.K.Fault("warped-datagram")
				if w := s.warpDgram(b); len(w) > 0 {
					h.Deliver(w, s.Dur("fault", 200*time.Millisecond), true)
				}
				return s.FaultP(1, 2)
			}
		}
		c, v = NewPeer(s, "c", cf.C, ct, true), NewPeer(s, "s", cf.S, st, false)
	} else {
		ct, st := NewStream(s, "c", "s", cf.C.NonBlocking, cf.S.NonBlocking, s.quickPol())
		for _, h := range []*Half{ct.Out, st.Out} {
			h.Mangle = func(r []byte) [][]byte {
				got += len(r)
				if !turn() {
					return [][]byte{r}
				}
				s.K.Fault("warped-record")
				w := s.warpRecord(r)
				if s.FaultP(1, 4) {
					w = append(w, r)
				}
				return w
			}
		}
		c, v = NewPeer(s, "c", cf.C, ct, true), NewPeer(s, "s", cf.S, st, false)
	}
	end := func() bool { return ended }
	s.K.At(8*time.Second+s.Dur("fault", 8*time.Second), "end", func() {
		ended = true
		c.Tr.Close()
		v.Tr.Close()
	})
	a, b := s.newVictim(c, cf.C.AllowEarlyData, end), s.newVictim(v, false, end)
	s.K.Run(s.Failed)
	s.finishVictims(a, b)
	s.NonTriv = s.K.Faults["warped-datagram"]+s.K.Faults["warped-record"] > 0
}

// warpedPeer: the other end has its keys, and sends what it likes.
func warpedPeer(s *Sim, mintClient bool) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Resume: 40, Early: 40, Auth: 30, NB: 60, Cookie: 20, Tickets: 20, BigCerts: s.CfgP(1, 8), Slow: s.CfgP(1, 25)})
	pol := s.quickPol()
	ct, st := NewStream(s, "c", "s", cf.C.NonBlocking && mintClient, cf.S.NonBlocking && !mintClient, pol)
	var p *Peer
	var tr *Conn
	if mintClient {
		p, tr = NewPeer(s, "c", cf.C, ct, true), st
	} else {
		p, tr = NewPeer(s, "s", cf.S, st, false), ct
	}
	names := flightOf[mintClient]
	prog := map[string]bool{}
	for n := s.FaultW(2, 6, 2); n > 0; n-- {
		prog[names[s.Fault(len(names))]] = true
	}
	interrupt := map[string]bool{}
	if s.FaultP(1, 3) {
		interrupt[names[s.Fault(len(names))]] = true
	}
	hook := func(c *ref.Conn, name string, msg []byte) [][]byte {
		if interrupt[name] {
			delete(interrupt, name)
			s.K.Logf("peer: interrupts before %s", name)
			s.rant(c)
		}
		if !prog[name] {
			return [][]byte{msg}
		}
		delete(prog, name)
		s.K.Fault("warped-" + name)
		s.NonTriv = true
		w := s.warp(msg)
		s.K.Logf("peer: %s of %d bytes becomes one of %d", name, len(msg), len(w))
		return [][]byte{w}
	}
	ended := false
	r := &refEnd{}
	follow := s.CfgP(2, 3)
	sh := newShadow(s, map[bool]string{true: "s", false: "c"}[mintClient], tr, !mintClient)
	sh.Go("peer", func() {
		if mintClient {
			sc := s.RefServer(cf)
			if sc.Key == nil {
				x := PKI["a.p256"]
				sc.Chain, sc.Key = rawChain(x), x.PrivateKey
			}
			if cf.E.PSK {
				sc.Suites = refSuites
				if !cf.E.DH {
					sc.Modes = []int{0}
				}
			}
			if s.FaultP(1, 5) {
				sc.HRR, sc.Cookie = 1, Pattern(55, 0, 1+s.Cfg(60))
			}
			sc.Auth = sc.Auth || s.FaultP(1, 4)
			r = s.newRef(tr, nil, sc)
		} else {
			cc := s.RefClient(cf)
			if cc.OfferEarly {
				cc.Early = s.earlyWrites(800)
			}
			r = s.newRef(tr, cc, nil)
		}
		r.c.Hook, r.c.HookTr = hook, follow
		err := r.Handshake()
		s.K.Logf("peer: handshake -> %v", err)
		if err == nil || s.FaultP(1, 2) {
			r.c.Hook = nil
			s.rant(r.c)
		}
		// it goes on reading, as a peer would
		buf := make([]byte, 20000)
		for i := 0; i < 50 && err == nil; i++ {
			_, err = r.c.Read(buf)
		}
	})
	s.K.At(5*time.Second+s.Dur("fault", 8*time.Second), "end", func() {
		ended = true
		ct.Close()
		st.Close()
	})
	v := s.newVictim(p, mintClient && cf.C.AllowEarlyData, func() bool { return ended })
	s.K.Run(s.Failed)
	s.finishVictims(v)
	if s.K.Faults["rant"] > 0 {
		s.NonTriv = true
	}
}

// rant sends odd records under the keys of the moment.
func (s *Sim) rant(c *ref.Conn) {
	for n := 1 + s.Fault(10); n > 0; n-- {
		s.K.Fault("rant")
		if s.FaultP(1, 4) {
			s.K.Sleep(s.Dur("fault", time.Second))
		}
		var err error
		k := s.Fault(15)
		if !c.Done && (k < 2 || k > 11) {
			k = 2 // there may be no keys yet
		}
		s.K.Logf("peer: rant %d", k)
		switch k {
		case 0: // nothing but padding
			err = c.SendInner(make([]byte, s.Fault(4)*s.Fault(400)))
		case 1:
			err = c.SendInner(s.rnd(s.Fault(40)))
		case 2:
			err = c.SendRecord([]int{20, 21, 22, 23, 24, 26, 0, 255}[s.Fault(8)], s.rnd(s.Fault(40)))
		case 3:
			err = c.SendRecord(22, s.warp(ref.Msg(ref.HTTicket, append(append(s.rnd(8), 1, 7, 0, 4), append(s.rnd(4), 0, 8, 0, 42, 0, 4, 0, 0, 1, 0)...))))
		case 4:
			err = c.SendRecord(22, s.warp(ref.Msg(ref.HTKeyUpdate, []byte{byte(s.Fault(2))})))
		case 5:
			err = c.SendRecord(22, ref.Msg(s.Fault(256), s.rnd(s.Fault(100))))
		case 6: // several messages in a record, the last in part
			b := append(ref.Msg(ref.HTKeyUpdate, []byte{byte(s.Fault(2))}), ref.Msg(ref.HTTicket, s.rnd(40))...)
			err = c.SendRecord(22, b[:1+s.Fault(len(b))])
		case 7:
			err = c.SendRecord(21, [][]byte{{1, 0}, {2, 0}, {1, 90}, {2, 255}, {2, 254}, {2, 253}, {1}, {}, {1, 0, 0}, {0, 0}}[s.Fault(10)])
		case 8:
			for m := 1 + s.Fault(30); m > 0 && err == nil; m-- {
				err = c.SendPadded(23, nil, s.Fault(2)*s.Fault(100))
			}
		case 9:
			err = c.SendPadded(23, s.rnd(10), []int{16372, 16373, 16374, 16384, 16500, 20000, 65000}[s.Fault(7)])
		case 10:
			err = c.SendRaw([][]byte{{23, 3, 3, 0, 0}, {23, 3, 3, 0, 1, 0}, {23, 3, 3, 0, 16}, {20, 3, 3, 0, 1, 1}, {21, 3, 3, 0, 2, 2, 40}, {23, 3, 3, 255, 255}, {128, 46, 1, 3, 1}}[s.Fault(7)])
		case 11:
			err = c.SendRaw(rec(23, s.rnd(s.Fault(60))))
		case 12:
			err = c.Write(s.rnd(1 + s.Fault(100)))
		case 13:
			err = c.KeyUpdate(s.FaultP(1, 2))
		case 14:
			for m := 1 + s.Fault(20); m > 0 && err == nil; m-- {
				err = c.KeyUpdate(true)
			}
		}
		if err != nil {
			return
		}
	}
}

// warpedPlain: two mint ends; one seals other plaintext than it meant to.
func warpedPlain(s *Sim, dtls bool) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: dtls, PSK: 40, Resume: 30, Early: 40, Auth: 30, NB: 60, Cookie: 20, Tickets: 50, BigCerts: s.CfgP(1, 6)})
	liar := []string{"c", "s"}[s.Fault(2)]
	rate := []int{10, 30, 70}[s.Fault(3)]
	left := 1 + s.FaultW(4, 2, 1)*s.Fault(12)
	from := s.Fault(2) * s.Fault(12)
	n := 0
	s.K.Tamper = func(node string, p []byte) []byte {
		n++
		if node != liar || left <= 0 || n <= from || !s.FaultP(rate, 100) || len(p) < 2 {
			return p
		}
		left--
		s.K.Fault("warped-plaintext")
		end := len(p) - 1
		for end > 0 && p[end] == 0 {
			end--
		}
		typ, body := p[end], p[:end]
		var b []byte
		switch s.FaultW(6, 2, 1, 1) {
		case 0:
			switch {
			case typ == 22 && dtls:
				b = s.warpFrag(body)
			case typ == 22 && !dtls:
				b = s.warp(body)
			default:
				b = s.tweak(body)
			}
		case 1:
			b = s.resize(body)
		case 2:
			typ = []byte{0, 20, 21, 22, 23, 24, 25, 26, 255}[s.Fault(9)]
			b = body
		case 3:
			b = nil
			if s.FaultP(1, 2) {
				typ = 0
			}
		}
		o := make([]byte, len(p))
		if len(b) > len(p)-1 {
			b = b[:len(p)-1]
		}
		copy(o, b)
		o[len(b)] = typ
		s.K.Logf("%s seals type %d, %d bytes instead of type %d, %d bytes", node, typ, len(b), p[end], end)
		return o
	}
	var ct, st Transport
	if dtls {
		ct, st = pairOf(NewDgram(s, "c", "s", cf.C.NonBlocking, cf.S.NonBlocking, s.quickDPol()))
	} else {
		a, b := NewStream(s, "c", "s", cf.C.NonBlocking, cf.S.NonBlocking, s.quickPol())
		ct, st = a, b
	}
	c, v := NewPeer(s, "c", cf.C, ct, true), NewPeer(s, "s", cf.S, st, false)
	ended := false
	end := func() bool { return ended }
	s.K.At(8*time.Second+s.Dur("fault", 8*time.Second), "end", func() {
		ended = true
		ct.Close()
		st.Close()
	})
	a, b := s.newVictim(c, cf.C.AllowEarlyData, end), s.newVictim(v, false, end)
	s.K.Run(s.Failed)
	s.finishVictims(a, b)
	s.NonTriv = s.K.Faults["warped-plaintext"] > 0
}

func pairOf(a, b *DConn) (Transport, Transport) { return a, b }

var _ net.Conn

// flood: much of one cheap thing.
func flood(s *Sim, dtls bool) {
	s.K.PreemptGap = 0
	cf := s.GenConf(Gen{DTLS: dtls, PSK: 30, Resume: 30, Auth: 20, NB: 100, Default: 50})
	s.K.StepLimit = 2000000
	client := s.CfgP(1, 2)
	ended := false
	var p *Peer
	got := 0
	var other Transport
	var send func(b []byte)
	if dtls {
		ct, st := NewDgram(s, "c", "s", true, true, &DPolicy{})
		me, o := ct, st
		cfg := cf.C
		if !client {
			me, o, cfg = st, ct, cf.S
		}
		other = o
		p = NewPeer(s, "v", cfg, me, client)
		send = func(b []byte) { o.Out.Deliver(b, 0, true) }
	} else {
		pol := &LinkPolicy{}
		ct, st := NewStream(s, "c", "s", true, true, pol)
		me, o := ct, st
		cfg := cf.C
		if !client {
			me, o, cfg = st, ct, cf.S
		}
		other = o
		p = NewPeer(s, "v", cfg, me, client)
		send = func(b []byte) { o.Out.Inject(b, pol) }
	}
	_ = other
	kind := s.Fault(9)
	n := []int{200, 500, 2000}[s.Fault(3)]
	size := []int{1, 30, 1000, 16000}[s.Fault(4)]
	if n*size > 2000000 {
		n = 2000000 / size
	}
	s.Param("flood %d of %d times %d bytes", kind, n, size)
	i := 0
	var next func()
	next = func() {
		for j := 0; j < 200 && i < n; j++ {
			var b []byte
			if dtls {
				b = s.floodDgram(kind, i, size)
			} else {
				b = s.floodRecord(kind, i, size)
			}
			got += len(b)
			send(b)
			i++
		}
		if i < n {
			s.K.At(10*time.Millisecond, "flood", next)
		} else {
			s.K.At(time.Second, "flooded", func() { ended = true })
		}
	}
	m := s.meter()
	s.K.At(time.Millisecond, "flood", next)
	p.MaxPolls = 100000
	p.StopHs = func() bool { return ended }
	p.Go("user", func() { p.Handshake() })
	s.K.Run(func() bool { return ended || s.Failed() })
	m.check(got, i)
	p.Tr.Close()
	s.K.Run(s.Failed)
	if s.CheckPanics() {
		return
	}
	s.NonTriv = true
}

// floodKeys: a peer with keys sends much of one cheap thing.
func floodKeys(s *Sim, mintClient bool) {
	s.K.PreemptGap = 0
	cf := s.GenConf(Gen{PSK: 30, Resume: 30, Auth: 20, NB: 50, Default: 50})
	s.K.StepLimit = 2000000
	ct, st := NewStream(s, "c", "s", cf.C.NonBlocking && mintClient, cf.S.NonBlocking && !mintClient, &LinkPolicy{})
	p, tr := NewPeer(s, "c", cf.C, ct, true), st
	if !mintClient {
		p, tr = NewPeer(s, "s", cf.S, st, false), ct
	}
	kind := s.Fault(9)
	n := []int{200, 1000, 4000}[s.Fault(3)]
	size := []int{1, 30, 1000, 16000}[s.Fault(4)]
	if n*size > 2000000 {
		n = 2000000 / size
	}
	s.Param("flood with keys %d of %d times %d bytes", kind, n, size)
	var m *meter
	sent := 0
	sh := newShadow(s, map[bool]string{true: "s", false: "c"}[mintClient], tr, !mintClient)
	sh.Go("peer", func() {
		var r *refEnd
		if mintClient {
			r = s.newRef(tr, nil, s.RefServer(cf))
		} else {
			r = s.newRef(tr, s.RefClient(cf), nil)
		}
		if err := r.Handshake(); err != nil {
			s.K.Logf("peer: handshake -> %v", err)
			return
		}
		s.K.Sleep(time.Second)
		m = s.meter()
		s.NonTriv = true
		s.K.Fault("flood-with-keys")
		before := len(tr.Out.SentAll)
		var err error
		for i := 0; i < n && err == nil; i++ {
			switch kind {
			case 0:
				err = r.c.SendRecord(23, nil)
			case 1:
				err = r.c.SendPadded(23, nil, size)
			case 2:
				err = r.c.KeyUpdate(false)
			case 3:
				err = r.c.KeyUpdate(true)
			case 4: // a message that never ends
				b := Pattern(3, i*size, size)
				if i == 0 {
					b = append([]byte{4, 255, 255, 255}, b...)
				}
				err = r.c.SendRecord(22, b)
			case 5:
				err = r.c.SendRecord(22, ref.Msg(ref.HTTicket, append(append(s.rnd(8), 1, 7, byte(size>>8), byte(size)), append(Pattern(uint32(i), 0, size), 0, 0)...)))
			case 6:
				err = r.c.SendRecord(21, []byte{1, 90})
			case 7:
				err = r.c.SendRecord(22, nil)
			case 8:
				err = r.c.SendRecord(23, Pattern(3, 0, size))
			}
			if i%50 == 49 {
				s.K.Sleep(10 * time.Millisecond)
			}
		}
		s.K.Sleep(5 * time.Second)
		sent = len(tr.Out.SentAll) - before
		if m != nil && !s.Failed() {
			m.check(sent, n)
		}
		ct.Close()
		st.Close()
	})
	p.MaxPolls = 1000000
	p.Go("user", func() {
		p.Handshake()
		if !p.Done {
			p.Tr.Close()
			return
		}
		buf := make([]byte, 70000)
		for {
			k, err := p.Conn.Read(buf)
			if k == 0 && err == mint.AlertWouldBlock {
				if p.Tr.Readable() {
					// the end of the stream shows as an error
					s.K.Sleep(time.Millisecond)
				}
				p.waitInput("read", nil)
				continue
			}
			if err != nil {
				s.K.Logf("user: read error %v", err)
				return
			}
		}
	})
	s.K.Run(s.Failed)
	s.CheckPanics()
}

func (s *Sim) floodRecord(kind, i, size int) []byte {
	switch kind {
	case 0: // a message that never ends
		b := Pattern(3, i*size, size)
		if i == 0 {
			b = append([]byte{1, 255, 255, 255}, b...)
		}
		return rec(22, b)
	case 1:
		return rec(20, []byte{1})
	case 2:
		return rec(22, nil)
	case 3:
		return rec(21, []byte{1, 90})
	case 4:
		return rec(23, Pattern(4, 0, size))
	case 5:
		return rec(23, nil)
	case 6: // a record that never ends
		b := Pattern(3, i*size, size)
		if i == 0 {
			b = append([]byte{22, 3, 3, 64, 0}, b...)
		}
		return b
	case 7:
		return rec(22, ref.Msg(1, Pattern(3, 0, size)))
	}
	return rec(22, append([]byte{2, 0, 0x40, 0}, Pattern(3, i*size, size)...))
}

func (s *Sim) floodDgram(kind, i, size int) []byte {
	size = min(size, 1200)
	r := func(typ byte, epoch uint16, b []byte) []byte {
		h := make([]byte, 13, 13+len(b))
		h[0], h[1], h[2] = typ, 0xfe, 0xfd
		binary.BigEndian.PutUint64(h[3:], uint64(epoch)<<48|uint64(i))
		binary.BigEndian.PutUint16(h[11:], uint16(len(b)))
		return append(h, b...)
	}
	frag := func(typ byte, length, seq, off int, b []byte) []byte {
		h := []byte{typ, byte(length >> 16), byte(length >> 8), byte(length), byte(seq >> 8), byte(seq), byte(off >> 16), byte(off >> 8), byte(off), byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}
		return r(22, 0, append(h, b...))
	}
	switch kind {
	case 0: // pieces of one huge message, never the first
		return frag(1, 1<<24-1, 0, 1+i*size, Pattern(3, i*size, size))
	case 1: // of later messages
		return frag(1, size+1, i, 0, Pattern(3, 0, size))
	case 2: // whole later messages
		return frag(1, size, 1+i, 0, Pattern(3, 0, size))
	case 3: // the same piece again and again
		return frag(1, 1<<20, 0, 1, Pattern(3, 0, size))
	case 4: // overlapping pieces
		return frag(1, 1<<20, 0, 1+i, Pattern(3, 0, size))
	case 5: // acknowledgements of nothing
		return r(25, 0, append([]byte{0, byte(size &^ 7)}, make([]byte, size&^7)...))
	case 6:
		return r(23, 3, Pattern(3, 0, size))
	case 7:
		return r(21, 0, []byte{1, 90})
	}
	return frag(2, 1<<14, i%3, i, Pattern(3, 0, size))
}

package engine

import (
	"fmt"
	"time"

	"verif.local/sim/ref"
)

func init() {
	register("C05",
		Scenario{"tls", 10, noncesTLS},
		Scenario{"write-faults", 4, noncesFaults},
		Scenario{"volume", 1, noncesVolume},
		Scenario{"dtls", 6, noncesDTLS},
		Scenario{"provoked", 5, noncesProvoked},
		Scenario{"entropy", 3, entropyFails},
	)
	register("C13",
		Scenario{"storm", 40, kuStorm},
		Scenario{"foreign", 16, kuForeign},
		Scenario{"dtls", 20, func(s *Sim) { kuDTLS(s, false) }},
		Scenario{"dtls-hundreds", 1, func(s *Sim) { kuDTLS(s, true) }},
		Scenario{"backpressure", 12, func(s *Sim) { backpressure(s, 30) }},
	)
	register("C16",
		Scenario{"tls", 10, func(s *Sim) { secrecy(s, false) }},
		Scenario{"tls-hostile", 6, func(s *Sim) { secrecy(s, true) }},
		Scenario{"again", 5, func(s *Sim) { secrecyAgain(s, false) }},
		Scenario{"dtls", 8, secrecyDTLS},
		Scenario{"dtls-again", 3, func(s *Sim) { secrecyAgain(s, true) }},
	)
}

// manyWriters gives one end several application threads.
func (x *Session) manyWriters(p *Peer, plans []AppPlan) {
	for i := range plans {
		pl := plans[i]
		p.Go("writer", func() {
			for _, o := range pl.Ops {
				x.s.K.Yield("between")
				switch o.Kind {
				case "write":
					if _, err := p.Conn.Write(Pattern(1000, 0, o.N)); err != nil {
						return
					}
				case "keyupdate":
					if err := p.Conn.SendKeyUpdate(o.Req); err != nil {
						return
					}
				case "sleep":
					x.s.K.Sleep(o.D)
				}
			}
		})
	}
}

func noncesTLS(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Resume: 20, Early: 60, Auth: 15, NB: 40, Tickets: 30, Cookie: 15, BigCerts: s.CfgP(1, 8)})
	w := s.WatchSeals()
	for i := 0; i < 1+s.CfgW(3, 1); i++ {
		x := s.NewSession(string(rune('1'+i)), uint32(i+1), cf, s.LinkPol(), Judge{})
		x.Quiet = true
		g := AppGen{MaxOps: 4, KU: 40, Big: s.CfgP(1, 3), Sleep: time.Second}
		x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
		if cf.E.EarlyOffer {
			x.Early = s.earlyWrites(3000)
		}
		// more threads than one that write and update
		n := s.CfgW(2, 2, 1)
		var cp, sp []AppPlan
		for j := 0; j < n; j++ {
			cp, sp = append(cp, s.GenApp(g)), append(sp, s.GenApp(g))
		}
		x.after = func(p *Peer) {
			if !p.Done {
				return
			}
			if p.Client {
				x.manyWriters(p, cp)
			} else {
				x.manyWriters(p, sp)
			}
		}
		if cf.E.EarlyOffer && s.CfgP(1, 2) {
			// early data from another thread than the one that runs the handshake
			x.concurrentEarly = true
		}
		x.Start()
		s.K.Run(s.Failed)
		if s.Failed() || s.CheckPanics() {
			return
		}
		x.closeAll()
		if s.Failed() || s.CheckPanics() {
			return
		}
		cf.E = Predict(cf.C, cf.S)
	}
	s.NonTriv = w.Seals > 4
}

// noncesFaults lets transport writes fail and the application carry on.
func noncesFaults(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 50, Early: 80, Auth: 15, NB: 50, Tickets: 30})
	w := s.WatchSeals()
	x := s.NewSession("", 1, cf, s.LinkPol(), Judge{})
	x.Quiet = true
	g := AppGen{MaxOps: 6, KU: 30, Big: true, Sleep: time.Second}
	cp, sp := []AppPlan{s.GenApp(g), s.GenApp(g)}, []AppPlan{s.GenApp(g), s.GenApp(g)}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(3000)
	}
	bad := 0
	fault := func(c *Conn, n int) (int, error) {
		if s.FaultP(1, 8) {
			bad++
			s.K.Fault("write-error")
			return s.Fault(n + 1), errIO
		}
		return n, nil
	}
	x.CT.WriteFault, x.ST.WriteFault = fault, fault
	if s.CfgP(1, 2) {
		// the transport fails for reading instead
		x.CT.WriteFault, x.ST.WriteFault = nil, nil
		pos := s.faultPos()
		if s.FaultP(1, 2) {
			pos = s.Fault(300)
		}
		ft := []*Conn{x.CT, x.ST}[s.Fault(2)]
		ft.ReadCut = func(c *Conn, n int) (int, error) {
			if c.ReadBytes+n < pos {
				return n, nil
			}
			if c.Broken == nil {
				bad++
				s.K.Fault("read-error")
			}
			c.Broken = errReset
			return 0, errReset
		}
	}
	x.concurrentEarly = s.CfgP(1, 2)
	x.after = func(p *Peer) {
		if p.Client {
			x.stubborn(p, cp)
		} else {
			x.stubborn(p, sp)
		}
	}
	x.Start()
	s.K.Run(s.Failed)
	if !s.Failed() {
		s.CheckPanics()
	}
	s.NonTriv = bad > 0 && w.Seals > 2
}

// stubborn writers go on after errors.
func (x *Session) stubborn(p *Peer, plans []AppPlan) {
	for i := range plans {
		pl := plans[i]
		p.Go("stubborn", func() {
			for _, o := range pl.Ops {
				switch o.Kind {
				case "write":
					p.Conn.Write(Pattern(1000, 0, o.N))
				case "keyupdate":
					p.Conn.SendKeyUpdate(o.Req)
				case "sleep":
					x.s.K.Sleep(o.D)
				}
			}
		})
	}
}

// kuStorm updates keys from both ends and several threads while data flows.
func kuStorm(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 30, Early: 20, Auth: 5, NB: 50, Tickets: 30})
	w := s.WatchSeals()
	w.KU = true
	x := s.NewSession("", 1, cf, s.LinkPol(), Judge{Stream: true, KU: true})
	g := AppGen{MaxOps: 8, KU: 45, Big: s.CfgP(1, 3), Sleep: time.Second}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(3000)
	}
	// another thread on each end that only updates
	ku := AppGen{MaxOps: 5, KU: 100, Sleep: time.Second}
	extra := s.CfgW(2, 1, 1)
	plan := s.GenApp(ku)
	x.after = func(p *Peer) {
		if !p.Done || extra == 0 || extra == 1 && !p.Client {
			return
		}
		p.Go("updates", func() {
			for _, o := range plan.Ops {
				s.K.Yield("between")
				if !x.do(p, o) {
					break
				}
			}
			p.Extra = true
		})
	}
	x.Start()
	s.K.Run(s.Failed)
	x.Finish()
	if s.Failed() {
		return
	}
	if x.C.Done && x.S.Done {
		for _, p := range []*Peer{x.C, x.S} {
			// each end sent its own updates and one answer per request
			want := p.KUs + p.other.KUReqs
			if got := w.KUs[p.Node.Name]; got != want {
				s.Fail("keyupdate-unanswered", "%s was to send %d updates of its own and %d answers, it sent %d in all", p.Name, p.KUs, p.other.KUReqs, got)
				return
			}
		}
		s.NonTriv = x.C.KUs+x.S.KUs > 0
	}
}

// kuForeign updates keys against the reference endpoint.
func kuForeign(s *Sim) {
	s.Sched()
	cf := interopConf(s, 40)
	oneInterop(s, cf, s.CfgP(1, 2))
}

func secrecy(s *Sim, hostile bool) {
	s.Sched()
	cf := s.GenConf(Gen{Incompat: s.CfgP(1, 4), PSK: 40, Resume: 20, Early: 50, Auth: 30, NB: 50, Tickets: 50, Cookie: 25, BigCerts: s.CfgP(1, 4)})
	w := s.WatchSeals()
	x := s.NewSession("", 1, cf, s.LinkPol(), Judge{})
	x.Quiet = true
	g := AppGen{MaxOps: 3, KU: 20, Sleep: time.Second}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(3000)
	}
	var m *Mitm
	if hostile {
		m = s.Attack(x, 1+s.Fault(4))
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() || !hostile && s.CheckPanics() {
		return
	}
	x.closeAll()
	s.scanSession(x, w)
	if s.Failed() {
		return
	}
	retried := false
	for _, r := range append(append([][]byte{}, x.CT.In.Wire...), x.mitmSeen(m)...) {
		retried = retried || isHRR(r)
	}
	if !s.clearDiscipline(true, x.CT.Out.Wire, retried) || !s.clearDiscipline(false, x.ST.Out.Wire, false) {
		return
	}
	s.NonTriv = x.C.Done || x.S.Done || hostile && m.Edits > 0
}

// secrecyAgain has several connections of one pair of stores: what one
// connection shows in the clear, such as the name of a ticket, must not give
// away anything of another.
func secrecyAgain(s *Sim, dtls bool) {
	s.Sched()
	s.K.StmtLimit = 60000000
	nb := 50
	if dtls {
		nb = 100
	}
	cf := s.GenConf(Gen{DTLS: dtls, PSK: 15, Early: 50, Auth: 30, NB: nb, Tickets: 100, Cookie: 20})
	w := s.WatchSeals()
	type side struct {
		c2s  bool
		sent []byte
	}
	var sent []side
	var app [][]byte
	done := 0
	for i, n := 1, 2+s.Cfg(2); i <= n; i++ {
		cf.E = Predict(cf.C, cf.S)
		if dtls {
			s.FaultEnd = s.K.Now() + time.Second
			x := s.NewDSession(fmt.Sprint(i), uint32(i), cf, s.quickDPol())
			x.Hostile = true
			x.GenEarly()
			x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(4, 20), s.dgramPlan(4, 20)
			x.Start()
			s.K.Run(s.Failed)
			app = append(append(append(app, x.C.Msgs...), x.S.Msgs...), x.early...)
			for _, h := range []*DHalf{x.CT.Out, x.ST.Out} {
				for _, p := range h.Sent {
					sent = append(sent, side{h.c2s, p})
				}
			}
			if x.C.Done && x.S.Done {
				done++
			}
		} else {
			x := s.NewSession(fmt.Sprint(i), uint32(i), cf, s.quickPol(), Judge{})
			x.Quiet = true
			g := AppGen{MaxOps: 3, KU: 20, Sleep: time.Second}
			x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
			if cf.E.EarlyOffer {
				x.Early = s.earlyWrites(3000)
			}
			x.Start()
			s.K.Run(s.Failed)
			if s.Failed() || s.CheckPanics() {
				return
			}
			x.closeAll()
			app = append(app, x.C.Attempt, x.S.Attempt, x.early)
			sent = append(sent, side{true, x.CT.Out.SentAll}, side{false, x.ST.Out.SentAll})
			if x.C.Done && x.S.Done {
				done++
			}
		}
		if s.Failed() || s.CheckPanics() {
			return
		}
		s.Pause(s.Dur("op", time.Minute))
	}
	ww := s.secretsOf(cf, w, app...)
	for _, x := range sent {
		if !ww.Scan(x.c2s, x.sent) {
			return
		}
	}
	if len(cf.SStore.Puts) > 0 && cf.SStore.Gets > 0 {
		s.K.Probe("ticket shown in the clear")
	}
	s.NonTriv = done > 1
}

// mitmSeen: an attacker can fake a retry, and a client may answer it.
func (x *Session) mitmSeen(m *Mitm) [][]byte {
	if m == nil {
		return nil
	}
	return m.sent
}

// scanSession looks for every secret of a session in what crossed the wire.
func (s *Sim) scanSession(x *Session, seals *SealWatch) bool {
	w := s.secretsOf(x.cf, seals, x.C.Attempt, x.S.Attempt, x.early)
	return w.Scan(true, x.CT.Out.SentAll) && w.Scan(false, x.ST.Out.SentAll)
}

func (s *Sim) secretsOf(cf *Conf, seals *SealWatch, app ...[]byte) *WireWatch {
	w := s.NewWireWatch()
	for _, b := range app {
		w.Secret("application data", b)
	}
	for _, c := range cf.S.Certificates {
		for _, y := range c.Chain {
			w.Secret("a server certificate", y.Raw)
		}
	}
	for _, c := range cf.C.Certificates {
		for _, y := range c.Chain {
			w.Secret("a client certificate", y.Raw)
		}
	}
	for _, p := range cf.S.NextProtos {
		w.ServerSecret("the application protocol", []byte(p))
	}
	for k := range seals.Keys {
		w.Secret("an encryption key", []byte(k))
	}
	for _, st := range []*Store{cf.CStore, cf.SStore} {
		for _, k := range st.m {
			w.Secret("a pre-shared key", k.Key)
		}
		for _, k := range st.Puts {
			w.Secret("a pre-shared key", k.Key)
			w.ServerSecret("a ticket", k.Identity)
		}
	}
	// the client asks for the server by name in the clear
	w.Allow(append([]byte{0, byte(len(cf.C.ServerName))}, cf.C.ServerName...))
	return w
}

// offend: the reference endpoint sends what makes mint answer or give up. It
// tells what it was, and whether mint has to give up.
func (s *Sim) offend(r *refEnd) (string, bool) {
	ku := func(b ...byte) []byte { return ref.Msg(24, b) }
	var b []byte
	typ, what, sure := 22, "", false
	switch w := s.Fault(12); w {
	case 0:
		what, sure = "key update with a wrong value", true
		b = ku(byte(2 + s.Fault(254)))
	case 1:
		what, sure = "key update of a wrong length", true
		b = ku([]byte{1, 0, 1}[:s.Fault(2)*2]...)
	case 2:
		what, sure = "handshake message", true
		b = ref.Msg([]int{0, 1, 2, 8, 11, 13, 15, 20, 254}[s.Fault(9)], Pattern(7, 0, s.Fault(80)))
	case 3:
		what = "alert"
		typ, b = 21, []byte{byte(s.Fault(256)), byte(s.Fault(256)), 0}[:1+s.Fault(3)]
	case 4:
		typ, b = []int{25, 0, 20, 26, 99}[s.Fault(5)], Pattern(8, 0, 1+s.Fault(40))
		what, sure = "record of another type", typ == 25
	case 5:
		what, sure = "huge handshake message", true
		b = []byte{byte([]int{4, 24, 20}[s.Fault(3)]), 255, 255, 255, 1}
	case 6:
		what = "ticket"
		b = ref.Msg(4, Pattern(9, 0, s.Fault(60)))
	case 7:
		s.K.Fault("offence-record")
		r.c.SendRaw(append([]byte{23, 3, 3, 0, 40}, Pattern(10, 0, 40)...))
		return "forged record", true
	case 8:
		s.K.Fault("offence-record")
		r.c.SendRaw(append([]byte{byte(20 + s.Fault(6)), 3, 3, 0, 2}, 2, 40))
		return "clear record", true
	case 9, 10:
		s.K.Fault("update-requested")
		r.c.KeyUpdate(true)
		return "key update", false
	case 11:
		what, sure = "two key updates in a record", true
		b = append(ku(0), ku(byte(s.Fault(3)))...)
	}
	s.K.Fault("offence")
	r.c.SendRecord(typ, b)
	return what, sure
}

// noncesProvoked: threads of mint write while another one reads what makes it
// send alerts or key updates of its own.
func noncesProvoked(s *Sim) {
	x, cf, client := s.foreignPeer()
	s.K.PreemptGap = []int{20, 60, 300}[s.Cfg(3)]
	x.J = Judge{}
	x.concurrentEarly = true
	if s.CfgP(1, 3) {
		s.windows(x.Session)
	}
	w := s.WatchSeals()
	x.NoApp = true
	x.after = func(p *Peer) {
		if !p.Done {
			return
		}
		n := 1 + s.Op(3)
		for i := 0; i < n; i++ {
			ops := s.GenApp(AppGen{MaxOps: 12, KU: 10, Sleep: 30 * time.Millisecond}).Ops
			p.Go("writer", func() {
				for _, o := range ops {
					switch o.Kind {
					case "write":
						if _, err := p.Conn.Write(Pattern(1000, 0, o.N)); err != nil {
							return
						}
					case "keyupdate":
						if p.Conn.SendKeyUpdate(o.Req) != nil {
							return
						}
					case "sleep":
						s.K.Sleep(o.D)
					}
				}
			})
		}
		p.Go("read", func() {
			buf := make([]byte, 20000)
			for i := 0; i < 60; i++ {
				if _, err := p.Read(buf, nil); err != nil && i > 40 {
					return
				}
			}
		})
	}
	var r *refEnd
	var done bool
	x.After = func() {
		n := 1 + s.FaultW(3, 1, 1)
		for i := 0; i < n; i++ {
			if s.FaultP(1, 2) {
				s.K.Sleep(s.Dur("fault", 50*time.Millisecond))
			}
			s.offend(r)
		}
		done = true
		buf := make([]byte, 20000)
		for i := 0; i < 200; i++ {
			if _, err := r.c.Read(buf); err != nil {
				return
			}
		}
	}
	e := &evil{s: s, server: client}
	if s.FaultP(1, 6) {
		e.program(flightOf[client], 1)
		r = x.startRef(cf, client, e.hook)
		e.c = r.c
	} else {
		r = x.startRef(cf, client, nil)
	}
	s.K.Run(s.Failed)
	if !s.Failed() {
		s.CheckPanics()
	}
	s.NonTriv = done && w.Seals > 4
}

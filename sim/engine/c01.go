package engine

import "time"

func init() {
	register("C01",
		Scenario{"stream", 10, func(s *Sim) {
			s.Sched()
			cf := s.GenConf(Gen{PSK: 40, Early: 50, Auth: 10, NB: 40, Tickets: 20})
			x := s.NewSession("", 1, cf, s.quickPol(), Judge{Stream: true})
			if cf.E.EarlyOffer {
				x.Early = s.earlyWrites(40000)
			}
			g := AppGen{MaxOps: 8, KU: s.CfgW(2, 1) * 15, Big: s.CfgP(2, 3), Sleep: time.Second}
			x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
			x.Start()
			s.K.Run(s.Failed)
			x.Finish()
			s.NonTriv = x.C.Done && x.S.Done && len(x.C.Got)+len(x.S.Got) > 0
		}},
		Scenario{"wire", 5, hostileWire},
		Scenario{"many", 1, thousandsTLS},
		Scenario{"backpressure", 4, func(s *Sim) { backpressure(s, 0) }},
	)
	register("C06",
		Scenario{"compatible", 10, func(s *Sim) {
			s.Sched()
			cf := s.GenConf(Gen{PSK: 35, Early: 40, Auth: 20, NB: 50, Tickets: 30, Cookie: 15, BigCerts: true, Slow: s.CfgP(1, 10), Default: 10})
			x := s.NewSession("", 1, cf, s.LinkPol(), Judge{Hs: true, Stream: true})
			if cf.E.EarlyOffer && s.CfgP(1, 3) {
				cf.C.AllowEarlyData = false
				cf.E = Predict(cf.C, cf.S)
			}
			if !cf.E.EarlyOffer && s.CfgP(1, 3) {
				s.windows(x)
			}
			if cf.E.EarlyOffer {
				x.Early = s.earlyWrites(40000)
			}
			g := AppGen{MaxOps: 3, Sleep: time.Second}
			x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
			x.Start()
			s.K.Run(s.Failed)
			x.Finish()
			s.NonTriv = x.C.Done && x.S.Done
		}},
		Scenario{"incompatible", 4, func(s *Sim) {
			s.Sched()
			cf := s.GenConf(Gen{Incompat: true, PSK: 30, Auth: 20, NB: 50, Tickets: 30, Cookie: 15})
			x := s.NewSession("", 1, cf, s.LinkPol(), Judge{Hs: true})
			x.Start()
			s.K.Run(s.Failed)
			x.Finish()
			s.NonTriv = true
		}},
	)
}

// hostileWire: an attacker in the path changes the records of a connection;
// the applications go on reading after errors.
func hostileWire(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Early: 50, Auth: 5, NB: 40, Tickets: 30})
	x := s.NewSession("", 1, cf, s.quickPol(), Judge{Stream: true})
	x.Quiet = true
	x.stubbornReads = s.CfgW(1, 2) * 40
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(20000)
	}
	g := AppGen{MaxOps: 8, KU: s.CfgW(2, 1) * 15, Sleep: time.Second}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	m := s.Attack(x, 1+s.Fault(5))
	m.from = 0
	late := s.FaultP(3, 4)
	ready := func() bool { return !late || x.C.Done && x.S.Done }
	for i, h := range []*Half{x.CT.Out, x.ST.Out} {
		i, pass := i, h.Mangle
		h.Mangle = func(r []byte) [][]byte {
			if !ready() {
				m.seen[i] = append(m.seen[i], r)
				return [][]byte{r}
			}
			return pass(r)
		}
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	s.NonTriv = m.Edits > 0 && x.C.Done && x.S.Done && len(x.C.Got)+len(x.S.Got) > 0
}

// windows makes the transports of blocking ends take only so much at a time.
func (s *Sim) windows(x *Session) {
	for _, c := range []*Conn{x.CT, x.ST} {
		c.Window = []int{64 + s.Cfg(100), 400 + s.Cfg(2000), 4000 + s.Cfg(30000)}[s.CfgW(1, 3, 4)]
	}
}

// backpressure: both ends write more than the transport takes before the
// other end reads it.
func backpressure(s *Sim, ku int) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Auth: 10, NB: 15, Tickets: 40})
	x := s.NewSession("", 1, cf, s.quickPol(), Judge{Stream: true, KU: ku > 0})
	s.windows(x)
	g := AppGen{MaxOps: 6, KU: ku, Big: true, Sleep: time.Second}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	// One end asks for answers at most: both ends answering at the same time
	// can wait for each other's transports for good, as in any implementation
	// that answers before it reads on.
	quiet := []*AppPlan{&x.CPlan, &x.SPlan}[s.Op(2)]
	for i := range quiet.Ops {
		quiet.Ops[i].Req = false
	}
	x.Start()
	s.K.StepLimit, x.C.MaxPolls, x.S.MaxPolls = 3000000, 100000, 100000
	s.K.Run(s.Failed)
	x.Finish()
	s.NonTriv = x.C.Done && x.S.Done && x.CT.Waits+x.ST.Waits > 0
}

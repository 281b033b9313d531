package engine

import (
	"bytes"
	"time"
)

func init() {
	register("C02",
		Scenario{"tamper", 10, func(s *Sim) { tamper(s, false) }},
		Scenario{"tamper-replayed", 4, func(s *Sim) { tamper(s, true) }},
		Scenario{"tamper-dtls", 8, tamperDTLS},
		Scenario{"honest", 3, honestPair},
	)
}

// tamper runs a handshake with an attacker in the path.
func tamper(s *Sim, foreign bool) {
	s.Sched()
	cf := s.GenConf(Gen{Incompat: s.CfgP(1, 4), PSK: 40, Resume: 20, Early: 40, Auth: 25, NB: 50, Tickets: 20, Cookie: 25, BigCerts: s.CfgP(1, 8)})
	var old [][]byte
	if foreign {
		// an earlier, undisturbed connection that the attacker recorded
		x := s.NewSession("0", 9, cf, &LinkPolicy{}, Judge{})
		x.NoApp = true
		x.Start()
		s.K.Run(s.Failed)
		x.closeAll()
		if s.K.Panicked() != nil {
			return
		}
		old = append(append(old, x.CT.Out.Wire...), x.ST.Out.Wire...)
	}
	x := s.NewSession("", 1, cf, s.LinkPol(), Judge{View: true, Stream: true})
	x.Quiet = true
	g := AppGen{MaxOps: 2, Sleep: time.Second}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(2000)
	}
	n := 1 + s.Fault(4)
	m := s.Attack(x, n)
	m.Foreign = old
	x.Start()
	s.K.Run(s.Failed)
	s.FinishHostile(x)
	m.transcript()
	s.NonTriv = m.Edits > 0
	s.K.Probe(map[bool]string{true: "completed", false: "not-completed"}[x.C.Done || x.S.Done])
}

// FinishHostile judges a session that an attacker disturbed: whoever
// completed must believe what it would have believed undisturbed.
func (s *Sim) FinishHostile(x *Session) {
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	for _, p := range []*Peer{x.C, x.S} {
		if p.Done && !s.CheckView(p, x.cf.E) {
			return
		}
	}
	if x.C.Done && x.S.Done {
		x.agree()
	}
}

// honestPair runs two undisturbed connections and compares everything.
func honestPair(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{Incompat: s.CfgP(1, 5), PSK: 40, Resume: 20, Early: 40, Auth: 25, NB: 50, Tickets: 20, Cookie: 25, BigCerts: true})
	var all []map[string][]byte
	for i := 0; i < 2; i++ {
		x := s.NewSession(string(rune('1'+i)), uint32(i+1), cf, s.LinkPol(), Judge{View: true})
		x.NoApp = true
		if cf.E.EarlyOffer {
			x.Early = s.earlyWrites(2000)
		}
		x.Start()
		s.K.Run(s.Failed)
		x.Finish()
		if s.Failed() || !x.C.Done || !x.S.Done {
			return
		}
		all = append(all, s.exporters(x.C, x.S))
		if s.Failed() {
			return
		}
		cf.E = Predict(cf.C, cf.S)
	}
	for k, v := range all[0] {
		if w, ok := all[1][k]; ok && len(v) >= 16 && bytes.Equal(v, w) {
			s.Fail("exporter-repeats", "two connections export the same value for %s", k)
			return
		}
	}
	s.NonTriv = true
}

package engine

import (
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
)

func init() {
	register("C14",
		Scenario{"nosy", 4, nosy},
		Scenario{"nosy-dtls", 3, nosyDTLS},
		Scenario{"failed-tampered", 6, func(s *Sim) { failedTLS(s, true) }},
		Scenario{"failed-config", 3, func(s *Sim) { failedTLS(s, false) }},
		Scenario{"failed-dtls", 3, failedDTLS},
		Scenario{"failed-peer", 4, failedPeer},
		Scenario{"alert", 6, alertPeer},
		Scenario{"offence", 4, offendingPeer},
		Scenario{"premature", 5, prematurePeer},
	)
}

// nose calls Read and Write of an endpoint whose handshake is under way.
func (s *Sim) nose(p *Peer, cf *Conf, early func() []byte, read func([]byte)) (done func() bool) {
	if s.OpP(1, 4) {
		return func() bool { return true }
	}
	t := p.Go("nosy", func() {
		got := 0
		buf := make([]byte, 70000)
		for i, n := 0, 1+s.Op(25); i < n; i++ {
			s.K.Sleep([]time.Duration{0, 5 * time.Millisecond, 200 * time.Millisecond}[s.OpW(3, 2, 1)])
			if p.HsRet || p.Connected() || s.Failed() {
				return
			}
			if s.OpP(1, 2) && !(p.Client && cf.C.AllowEarlyData) {
				b := Pattern(999, i*40, 1+s.Op(40))
				old := p.Attempt
				p.Attempt = append(append([]byte{}, old...), b...)
				n, err := p.Conn.Write(b)
				if n <= 0 {
					p.Attempt = old
				} else {
					p.Msgs = append(p.Msgs, b)
				}
				s.K.Logf("%s nosy Write(%d) -> %d %v", p.Name, len(b), n, err)
				if (n > 0 || err == nil) && !p.Connected() {
					s.Fail("write-before-completion", "%s Write(%d bytes) -> %d, %v before the handshake completed (state %s)", p.Name, len(b), n, err, p.stateName())
				}
				s.K.Probe("nosy-write")
				continue
			}
			n, err := p.Conn.Read(buf)
			s.K.Logf("%s nosy Read -> %d %v", p.Name, n, err)
			s.K.Probe("nosy-read")
			if n <= 0 {
				continue
			}
			if !p.Connected() && (p.Client || !p.Cfg.AllowEarlyData || !cf.C.AllowEarlyData) {
				s.Fail("read-before-completion", "%s Read -> %d bytes before the handshake completed (state %s)", p.Name, n, p.stateName())
				return
			}
			if early != nil {
				e := early()
				if got+n > len(e) || string(e[got:got+n]) != string(buf[:n]) {
					s.Fail("read-before-completion", "%s Read -> %d bytes that are not the early data its peer wrote (state %s)", p.Name, n, p.stateName())
					return
				}
				got += n
			}
			if read != nil {
				read(buf[:n])
			}
		}
	})
	return t.Finished
}

func nosy(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{Incompat: s.CfgP(1, 8), PSK: 50, Resume: 30, Early: 50, Auth: 25, NB: 50, Tickets: 20, Cookie: 25})
	x := s.NewSession("", 1, cf, s.LinkPol(), Judge{Hs: true})
	x.NoApp = true
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(2000)
	}
	x.Start()
	for _, p := range []*Peer{x.C, x.S} {
		s.nose(p, cf, func() []byte { return x.early }, nil)
	}
	s.K.Run(s.Failed)
	x.Finish()
	s.NonTriv = s.K.Probes["nosy-read"]+s.K.Probes["nosy-write"] > 0
}

func nosyDTLS(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 50, Resume: 30, Early: 40, Auth: 25, NB: 100, Tickets: 20, Cookie: 25})
	s.FaultEnd = s.Dur("fault", 3*time.Second)
	x := s.NewDSession("", 1, cf, s.DPol(true))
	x.Hostile = true
	x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(4, 0), s.dgramPlan(4, 0)
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(1000)
	}
	x.Start()
	for _, p := range []*Peer{x.C, x.S} {
		s.nose(p, cf, nil, nil)
	}
	s.K.Run(s.Failed)
	x.FinishHs()
	s.NonTriv = s.K.Probes["nosy-read"]+s.K.Probes["nosy-write"] > 0
}

// persist goes on using an endpoint whose handshake failed.
func (s *Sim) persist(p *Peer, d time.Duration) {
	if p.Done || s.Failed() || p.HsErr == mint.AlertWouldBlock || p.HsErr == mint.AlertNoAlert {
		return
	}
	s.K.Probe("persisted")
	buf := make([]byte, 3000)
	for i, n := 0, 3+s.Op(20); i < n && !s.Failed(); i++ {
		if s.OpP(1, 2) {
			s.K.Sleep(s.Dur("op", d))
		}
		switch s.Op(3) {
		case 0:
			a := p.Conn.Handshake()
			s.K.Logf("%s Handshake() again -> %v", p.Name, a)
			switch {
			case a == mint.AlertNoAlert || p.Connected():
				s.Fail("completed-after-failure", "%s completed (%v) after its handshake had failed with %v", p.Name, a, p.HsErr)
			case a == mint.AlertWouldBlock || a == mint.AlertStatelessRetry:
				s.Fail("failure-forgotten", "%s Handshake() -> %v after it had failed with %v", p.Name, a, p.HsErr)
			}
		case 1:
			n, err := p.Conn.Read(buf)
			s.K.Logf("%s Read again -> %d %v", p.Name, n, err)
			switch {
			case n > 0:
				s.Fail("data-after-failure", "%s Read -> %d bytes after its handshake had failed with %v", p.Name, n, p.HsErr)
			case err == nil || err == mint.AlertWouldBlock:
				s.Fail("failure-forgotten", "%s Read -> %v after its handshake had failed with %v", p.Name, err, p.HsErr)
			}
		case 2:
			n, err := p.Conn.Write([]byte("hello"))
			s.K.Logf("%s Write again -> %d %v", p.Name, n, err)
			if n > 0 || err == nil {
				s.Fail("accepted-after-failure", "%s Write -> %d, %v after its handshake had failed with %v", p.Name, n, err, p.HsErr)
			}
		}
	}
}

// failedTLS: an endpoint fails, by an attacker's doing or by configuration;
// everything genuine arrives, again, afterwards.
func failedTLS(s *Sim, attack bool) {
	s.Sched()
	cf := s.GenConf(Gen{Incompat: !attack || s.CfgP(1, 4), PSK: 50, Resume: 30, Early: 50, Auth: 30, NB: 50, Tickets: 20, Cookie: 25})
	if !attack && s.CfgP(1, 2) {
		refuse := &callback{err: fmt.Errorf("no")}
		if s.CfgP(1, 2) {
			cf.C.VerifyPeerCertificate = refuse.fn(s)
		} else {
			cf.S.VerifyPeerCertificate = refuse.fn(s)
		}
	}
	x := s.NewSession("", 1, cf, s.LinkPol(), Judge{})
	x.Quiet, x.NoApp = true, true
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(2000)
	}
	var m *Mitm
	if attack {
		m = s.Attack(x, 1+s.Fault(2))
	}
	x.after = func(p *Peer) {
		if p.Done {
			return
		}
		if s.FaultP(2, 3) {
			// what its peer sent arrives once more
			s.K.Fault("replay")
			o := x.ST
			if !p.Client {
				o = x.CT
			}
			for _, r := range append([][]byte{}, o.Out.Wire...) {
				if s.FaultP(4, 5) {
					o.Out.Inject(r, x.Pol)
				}
			}
		}
		s.persist(p, 2*time.Second)
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() && !attack {
		return
	}
	s.NonTriv = s.K.Probes["persisted"] > 0
	_ = m
}

func failedDTLS(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, Incompat: s.CfgP(1, 2), PSK: 50, Resume: 30, Early: 30, Auth: 30, NB: 100, Cookie: 25})
	if s.CfgP(2, 3) {
		refuse := &callback{err: fmt.Errorf("no")}
		if s.CfgP(1, 2) {
			cf.C.VerifyPeerCertificate = refuse.fn(s)
		} else {
			cf.S.VerifyPeerCertificate = refuse.fn(s)
		}
	}
	s.FaultEnd = s.Dur("fault", 3*time.Second)
	x := s.NewDSession("", 1, cf, s.DPol(true))
	x.Hostile = true
	x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(4, 0), s.dgramPlan(4, 0)
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(1000)
	}
	x.after = func(p *Peer) {
		if p.Done {
			return
		}
		o := x.ST
		if !p.Client {
			o = x.CT
		}
		if s.FaultP(1, 2) {
			s.K.Fault("replay")
			for _, d := range append([][]byte{}, o.Out.Sent...) {
				o.Out.Deliver(d, s.Dur("net", time.Second), true)
			}
		}
		s.persist(p, 2*time.Second)
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	s.NonTriv = s.K.Probes["persisted"] > 0
}

// foreignPeer makes a session of mint with the reference endpoint.
func (s *Sim) foreignPeer() (*XSession, *Conf, bool) {
	s.Sched()
	client := s.CfgP(1, 2) // mint is the client
	cf := s.GenConf(Gen{PSK: 50, Resume: 30, Early: 50, Auth: 40, NB: 50, Cookie: 20})
	x := s.NewX("", 1, cf, client, s.quickPol())
	x.J = Judge{Stream: true}
	x.Quiet = true
	if cf.E.EarlyOffer && client {
		x.Early = s.earlyWrites(1000)
	}
	return x, cf, client
}

func (x *XSession) startRef(cf *Conf, client bool, hook func(c *ref.Conn, name string, msg []byte) [][]byte) *refEnd {
	s := x.s
	var r *refEnd
	x.start(client, func(t net.Conn) foreign {
		if client {
			sc := s.RefServer(cf)
			if sc.Key == nil {
				p := PKI["a.p256"]
				sc.Chain, sc.Key = rawChain(p), p.PrivateKey
			}
			if cf.E.PSK {
				sc.Suites = refSuites
				if !cf.E.DH {
					sc.Modes = []int{0}
				}
			}
			r = s.newRef(t, nil, sc)
		} else {
			cc := s.RefClient(cf)
			if cc.OfferEarly {
				cc.Early = s.earlyWrites(1000)
				for _, b := range cc.Early {
					x.early = append(x.early, b...)
				}
			}
			r = s.newRef(t, cc, nil)
		}
		r.c.Hook = hook
		return r
	})
	return r
}

var flightOf = map[bool][]string{
	true:  {"SH", "EE", "CR", "SCERT", "SCV", "SFIN", "HRR"},
	false: {"CH", "CH2", "EOED", "CCERT", "CCV", "CFIN"},
}

// failedPeer: a peer with keys sends something wrong, then what is right.
func failedPeer(s *Sim) {
	x, cf, client := s.foreignPeer()
	e := &evil{s: s, server: client}
	e.program(flightOf[client], 1+s.Fault(2))
	x.NoApp = true
	x.J = Judge{}
	x.after = func(p *Peer) { s.persist(p, 2*time.Second) }
	r := x.startRef(cf, client, e.hook)
	e.c = r.c
	s.K.Run(s.Failed)
	s.Param("peer: %s", strings.Join(e.acts, ", "))
	s.NonTriv = s.K.Probes["persisted"] > 0
}

// offendingPeer: after completion the peer sends what mint cannot accept, and
// data before and after it. Nothing is delivered once mint has given up.
func offendingPeer(s *Sim) {
	x, cf, client := s.foreignPeer()
	x.J = Judge{}
	x.NoApp = true
	var before, after []byte
	for n := s.Op(3); n > 0; n-- {
		before = append(before, Pattern(71, len(before), 1+s.Op(300))...)
	}
	after = Pattern(72, 0, 1+s.Op(300))
	what, sure := "", false
	x.after = func(p *Peer) {
		if !p.Done {
			return
		}
		if s.CfgP(1, 2) {
			s.K.Sleep(s.Dur("op", time.Second)) // it may all be there at once
		}
		buf := make([]byte, 1+s.Op(2000))
		var got []byte
		var gaveUp error
		for i := 0; i < 700; i++ {
			n, err := p.Read(buf, nil)
			s.K.Logf("%s Read -> %d %v", p.Name, n, err)
			if n > 0 && gaveUp != nil {
				s.Fail("data-after-failure", "%s Read -> %d bytes after it had returned %v because of a %s", p.Name, n, gaveUp, what)
				return
			}
			if gaveUp != nil && err == nil {
				s.Fail("failure-forgotten", "%s Read -> no error after it had returned %v because of a %s", p.Name, gaveUp, what)
				return
			}
			got = append(got, buf[:n]...)
			if len(got) > len(before)+len(x.early) && sure {
				s.Fail("data-after-failure", "%s delivers data that its peer sent after a %s", p.Name, what)
				return
			}
			if err == nil || err == mint.AlertWouldBlock {
				continue
			}
			if gaveUp == nil {
				gaveUp = err
				i = 680
				continue
			}
			if s.OpP(1, 3) {
				s.K.Sleep(s.Dur("op", 100*time.Millisecond))
			}
		}
	}
	var r *refEnd
	x.After = func() {
		r.c.Write(before)
		what, sure = s.offend(r)
		s.Param("offence: %s", what)
		for i := 0; i < 3; i++ {
			r.c.Write(after)
			if s.FaultP(1, 3) {
				s.K.Sleep(s.Dur("fault", 200*time.Millisecond))
			}
		}
		buf := make([]byte, 20000)
		for i := 0; i < 100; i++ {
			if _, err := r.c.Read(buf); err != nil {
				return
			}
		}
	}
	r = x.startRef(cf, client, nil)
	s.K.Run(s.Failed)
	if !s.Failed() {
		s.CheckPanics()
	}
	s.NonTriv = what != ""
}

// alertPeer: the peer sends a fatal alert at any point.
func alertPeer(s *Sim) {
	x, cf, client := s.foreignPeer()
	lv, ds := 2, s.Fault(256)
	switch s.FaultW(5, 2, 1) {
	case 0:
		ds = []int{10, 20, 40, 42, 47, 48, 50, 51, 70, 71, 80, 86, 109, 110, 112, 115, 116, 120, 22, 21, 90, 45, 46, 44, 43}[s.Fault(25)]
	case 1:
	case 2:
		lv, ds = 1, 0
	}
	if ds != 90 && s.FaultP(1, 4) {
		lv = s.Fault(4) // it means nothing
	}
	fl := flightOf[client]
	at := s.Fault(len(fl) + 3)
	sent := "" // where it was sent
	more := s.FaultP(2, 3)
	var r *refEnd
	send := func(where string) {
		s.K.Fault("alert")
		s.K.Logf("peer sends alert %d/%d at %s", lv, ds, where)
		sent = where
		r.c.SendAlert(lv, ds)
	}
	hook := func(c *ref.Conn, name string, msg []byte) [][]byte {
		if at < len(fl) && fl[at] == name && sent == "" {
			c.Flush()
			send(name)
			if !more {
				c.Hook = func(*ref.Conn, string, []byte) [][]byte { return nil }
				return nil
			}
		}
		return [][]byte{msg}
	}
	x.FPlan.Ops = []Op{{Kind: "write", N: 1 + s.Op(300)}, {Kind: "write", N: 1 + s.Op(300)}}
	x.After = func() {
		if at < len(fl) {
			return
		}
		for i := 0; i < at-len(fl); i++ {
			x.fdo(x.FPlan.Ops[i])
		}
		x.FPlan.Ops = x.FPlan.Ops[at-len(fl):]
		send("after completion")
		if !more {
			x.FPlan.Ops = nil
		}
		for _, o := range x.FPlan.Ops {
			b := Pattern(55, 0, o.N) // must never be delivered
			r.c.Write(b)
		}
		x.FPlan.Ops = nil
	}
	var want error = mint.Alert(ds)
	odd := ds >= 253 // values with a meaning of their own in mint
	x.after = func(p *Peer) {
		if !p.Done {
			if p.HsErr == mint.AlertWouldBlock {
				return
			}
			switch {
			case sent == "":
				s.Fail("handshake-error", "%s failed with %v though its peer did nothing wrong", p.Name, p.HsErr)
			case odd && (p.HsErr == mint.AlertNoAlert || p.HsErr == mint.AlertStatelessRetry):
				s.Fail("alert-misread", "%s Handshake() -> %v for an alert %d", p.Name, p.HsErr, ds)
			case !odd && p.HsErr != want:
				s.Fail("alert-misreported", "%s Handshake() -> %v although its peer sent the alert %v (%s)", p.Name, p.HsErr, want, sent)
			}
			s.persist(p, 2*time.Second)
			return
		}
		if sent != "" && sent != "after completion" {
			s.Fail("alert-ignored", "%s completed although its peer sent the alert %v (%s)", p.Name, want, sent)
			return
		}
		buf := make([]byte, 1000)
		var first error
		for i := 0; i < 30; i++ {
			n, err := p.Read(buf, nil)
			s.K.Logf("%s Read -> %d %v", p.Name, n, err)
			if first != nil {
				if n > 0 {
					s.Fail("data-after-alert", "%s Read -> %d bytes after it had returned %v", p.Name, n, first)
					return
				}
				if err != first {
					s.Fail("alert-forgotten", "%s Read -> %v after it had returned %v", p.Name, err, first)
					return
				}
				if i > 20 {
					return
				}
				s.K.Sleep(time.Second)
				continue
			}
			if !x.gotBytes(p, buf[:n]) {
				return
			}
			if err != nil {
				first = err
				if sent == "" {
					s.Fail("read-error", "%s Read -> %v though its peer did nothing wrong", p.Name, err)
					return
				}
				if ds == 0 && err != io.EOF || !odd && ds != 0 && err != want {
					s.Fail("alert-misreported", "%s Read -> %v although its peer sent the alert %v", p.Name, err, want)
					return
				}
			}
		}
	}
	x.NoApp = true
	r = x.startRef(cf, client, hook)
	s.K.Run(s.Failed)
	s.Param("alert %d/%d sent: %s", lv, ds, sent)
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	s.NonTriv = sent != ""
	if sent != "" && !x.M.HsRet {
		s.Fail("alert-ignored", "%s waits in state %s although its peer sent the alert %v (%s): %s", x.M.Name, x.M.stateName(), want, sent, s.K.Where())
	}
}

// prematurePeer: the peer sends application data too early.
func prematurePeer(s *Sim) {
	x, cf, client := s.foreignPeer()
	fl := flightOf[client]
	at := s.Fault(len(fl))
	ahead := s.FaultP(1, 2)
	n := 1 + s.Fault(200)
	did := false
	hook := func(c *ref.Conn, name string, msg []byte) [][]byte {
		if fl[at] == name && !did {
			c.Flush()
			b := Pattern(77, 0, n)
			if ahead || name == "EOED" {
				if !c.SendAhead(b) {
					return [][]byte{msg}
				}
			} else {
				c.SendRecord(ref.RTApp, b)
			}
			did = true
			s.K.Fault("premature-data")
			s.K.Logf("peer sends %d bytes before %s (application keys: %v)", n, name, ahead)
		}
		return [][]byte{msg}
	}
	x.FPlan.Ops = []Op{{Kind: "write", N: 1 + s.Op(300)}}
	x.after = func(p *Peer) {
		if !p.Done {
			s.persist(p, 2*time.Second)
		}
	}
	x.startRef(cf, client, hook)
	for _, p := range []*Peer{x.M} {
		s.nose(p, cf, nil, func(b []byte) { x.gotBytes(p, b) })
	}
	s.K.Run(s.Failed)
	s.Param("data before %s, application keys %v", fl[at], ahead)
	s.NonTriv = did
	s.K.Probe(map[bool]string{true: "completed", false: "not-completed"}[x.M.Done])
}

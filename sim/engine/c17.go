package engine

import (
	"crypto/tls"
	"fmt"
	"net"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
)

func init() {
	register("C17",
		Scenario{"mint-client", 10, func(s *Sim) { runInterop(s, true) }},
		Scenario{"mint-server", 10, func(s *Sim) { runInterop(s, false) }},
		Scenario{"groups", 1, everyGroup},
		Scenario{"mint-client-resumes", 6, resumeAtRef},
		Scenario{"mint-server-resumes", 6, resumeAtMint},
		Scenario{"std-server", 4, func(s *Sim) { runStd(s, true) }},
		Scenario{"std-client", 4, func(s *Sim) { runStd(s, false) }},
	)
}

// interopConf draws a pair that both kinds of endpoint support.
func interopConf(s *Sim, psk int) *Conf {
	return s.GenConf(Gen{PSK: psk, Resume: 50, Early: 60, Auth: 30, NB: 50, Cookie: 20, BigCerts: true, Slow: s.CfgP(1, 25)})
}

// rare decides whether the reference end looks for a share or a secret that
// begins with a zero byte.
func (s *Sim) rare(groups []int) int {
	n := 30
	for _, g := range groups {
		if g >= 256 {
			n = 2
		}
	}
	if !s.CfgP(1, n) {
		return 0
	}
	s.K.Probe("rare share")
	return 1 + s.CfgW(2, 1)
}

// everyGroup: one group on offer, of any kind and size.
func everyGroup(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{NB: 50})
	g := append([]mint.NamedGroup{mint.P256, mint.P384, mint.P521, mint.X25519}, finiteGroups...)[s.CfgW(4, 3, 3, 2, 10, 4, 2, 1, 1)]
	cf.C.Groups, cf.S.Groups = []mint.NamedGroup{g}, []mint.NamedGroup{g}
	s.K.Probe(fmt.Sprintf("group %d", g))
	oneInterop(s, cf, s.CfgP(2, 3))
}

func runInterop(s *Sim, mintClient bool) {
	s.Sched()
	cf := interopConf(s, 40)
	oneInterop(s, cf, mintClient)
}

func oneInterop(s *Sim, cf *Conf, mintClient bool) {
	e := cf.E
	x := s.NewX("", 1, cf, mintClient, s.quickPol())
	x.MPlan = s.xplan(false)
	x.FPlan = s.xplan(mintClient)
	if mintClient {
		sc := s.RefServer(cf)
		s.greaseServer(sc)
		sc.Rare = s.rare(sc.Groups)
		if e.PSK && !e.DH {
			sc.Modes = []int{0}
		}
		if e.PSK {
			// the key's suite must be usable, as it is for mint
			sc.Suites = refSuites
		}
		if sc.Key == nil && !e.PSK {
			return
		}
		if e.EarlyOffer {
			x.Early = s.earlyWrites(4000)
		}
		x.start(true, func(t net.Conn) foreign { return s.newRef(t, nil, sc) })
		s.K.Run(s.Failed)
		x.FinishX(true, "")
	} else {
		cc := s.RefClient(cf)
		s.greaseClient(cc)
		cc.Rare = s.rare(cc.Groups) > 0
		if cc.OfferEarly {
			x.Early = s.earlyWrites(4000)
			for i, b := range x.Early {
				b = x.earlyBytes(len(b))
				x.Early[i] = b
				cc.Early = append(cc.Early, b)
			}
		}
		x.start(false, func(t net.Conn) foreign { return s.newRef(t, cc, nil) })
		x.C.pos = len(x.early)
		s.K.Run(s.Failed)
		x.FinishX(true, "")
		if !s.Failed() {
			s.CheckView(x.M, viewFor(cf, cc))
		}
	}
	s.NonTriv = x.M.Done && x.FDone
}

// earlyBytes is the next piece of the client's stream.
func (x *XSession) earlyBytes(n int) []byte {
	b := Pattern(x.tag*2+1, len(x.early), n)
	x.early = append(x.early, b...)
	return b
}

// viewFor adapts the prediction to what a reference client sends.
func viewFor(cf *Conf, cc *ref.ClientConfig) Expect {
	e := cf.E
	if !e.PSK {
		// it offers all its suites, whatever its key's hash is
		ss := dflt(ints(cf.S.CipherSuites), refSuites)
		for i := len(cc.Suites) - 1; i >= 0; i-- {
			for _, y := range ss {
				if y == cc.Suites[i] {
					e.Suite = mint.CipherSuite(y)
				}
			}
		}
	}
	return e
}

// quickPol is a transport that stays well inside the ticket age tolerance.
func (s *Sim) quickPol() *LinkPolicy {
	p := s.LinkPol()
	if p.MaxLat > 500*time.Millisecond {
		p.MaxLat = 500 * time.Millisecond
	}
	return p
}

// Pause lets simulated time pass.
func (s *Sim) Pause(d time.Duration) {
	t := s.K.Go("pause", nil, func() { s.K.Sleep(d) })
	s.K.Run(t.Finished)
}

func (x *Session) closeAll() {
	for _, p := range []*Peer{x.C, x.S} {
		if !p.closed() {
			p.Tr.Close()
		}
	}
	x.s.K.Run(nil)
}

// resumeAtRef: a mint client resumes at a reference server.
func resumeAtRef(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{Auth: 30, NB: 50, Cookie: 10, Early: 50})
	cf.S.AllowEarlyData = s.CfgP(1, 2)
	if s.CfgP(1, 3) {
		cf.C.PSKModes = [][]mint.PSKKeyExchangeMode{{mint.PSKModeKE}, {mint.PSKModeDHEKE}, {mint.PSKModeDHEKE, mint.PSKModeKE}}[s.Cfg(3)]
	}
	sc := s.RefServer(cf)
	if sc.Key == nil {
		return
	}
	s.greaseServer(sc)
	x := s.NewX("1", 1, cf, true, s.LinkPol())
	x.MPlan, x.FPlan = s.xplan(false), s.xplan(true)
	var r *refEnd
	early := -1
	if s.CfgP(2, 3) {
		early = 16384
	}
	x.start(true, func(t net.Conn) foreign {
		r = s.newRef(t, nil, sc)
		r.maxEar = early
		return r
	})
	s.K.Run(s.Failed)
	if !x.FinishX(true, "") {
		return
	}
	x.closeAll()
	if s.CheckPanics() {
		return
	}
	s.Pause(s.Dur("op", time.Hour-time.Minute))
	known := !s.CfgP(1, 5)
	sc2 := *sc
	sc2.PSKs = nil
	if known {
		for i, t := range r.issued {
			sc2.PSKs = append(sc2.PSKs, ref.PSK{ID: t.ID, Key: t.Key, Suite: t.Suite, Resumption: true, ALPN: t.ALPN})
			_ = i
		}
	}
	cf.C.AllowEarlyData = s.CfgP(1, 2)
	cf.E.EarlyOffer = cf.C.AllowEarlyData
	y := s.NewX("2", 2, cf, true, s.LinkPol())
	y.MPlan, y.FPlan = s.xplan(false), s.xplan(s.CfgP(1, 2))
	if cf.E.EarlyOffer {
		y.Early = s.earlyWrites(4000)
	}
	y.start(true, func(t net.Conn) foreign { return s.newRef(t, nil, &sc2) })
	s.K.Run(s.Failed)
	if !y.FinishX(true, "") {
		return
	}
	if got := y.f.View().PSK; got != known {
		s.Fail("interop-resumption", "the server knows the ticket: %v; resumed: %v", known, got)
	}
	s.NonTriv = true
}

// resumeAtMint: a reference client resumes at a mint server.
func resumeAtMint(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{Auth: 30, NB: 50, Cookie: 10, Early: 50, Tickets: 100})
	cf.S.AllowEarlyData = s.CfgP(1, 2)
	x := s.NewX("1", 1, cf, false, s.LinkPol())
	x.MPlan, x.FPlan = s.xplan(false), s.xplan(false)
	cc := s.RefClient(cf)
	s.greaseClient(cc)
	var r *refEnd
	x.start(false, func(t net.Conn) foreign {
		r = s.newRef(t, cc, nil)
		return r
	})
	s.K.Run(s.Failed)
	if !x.FinishX(true, "") {
		return
	}
	if len(r.c.Tickets) == 0 {
		s.Fail("interop-no-ticket", "a server that is to send tickets sent none that an independent client got")
		return
	}
	t := r.c.Tickets[len(r.c.Tickets)-1]
	if t.Lifetime != cf.S.TicketLifetime {
		s.Fail("interop-ticket-lifetime", "ticket lifetime %d, configured %d", t.Lifetime, cf.S.TicketLifetime)
		return
	}
	want := cf.S.TicketLen
	if want == 0 {
		want = 16
	}
	if len(t.ID) != want {
		s.Fail("interop-ticket-length", "the ticket has %d bytes, configured %d", len(t.ID), cf.S.TicketLen)
		return
	}
	got := time.Now()
	x.closeAll()
	if s.CheckPanics() {
		return
	}
	s.Pause(s.Dur("op", time.Hour-time.Minute))
	known := !s.CfgP(1, 5)
	if !known {
		cf.SStore.m = map[string]mint.PreSharedKey{}
	}
	cc2 := *cc
	cc2.Shares, cc2.SessionID = append([]int{}, cc.Groups...), nil
	age := uint32(time.Since(got) / time.Millisecond)
	cc2.PSKs = []ref.PSK{{ID: t.ID, Key: t.Key, Suite: t.Suite, Resumption: true, Obfuscated: age + t.AgeAdd, ALPN: t.ALPN}}
	// modes the server does not know offer nothing
	cc2.Modes = [][]int{{1, 0}, {1}, {0}, {0x2b}, {1, 0x2b}, {0x2b, 1}, {0x2b, 0}, {0, 1, 0x2b}}[s.CfgW(4, 4, 4, 1, 1, 1, 1, 1)]
	if s.CfgP(1, 8) {
		cc2.Shares = []int{}
	}
	psk, dhe := false, false
	for _, m := range cc2.Modes {
		psk, dhe = psk || m == 0, dhe || m == 1
	}
	share := len(cc2.Shares) > 0
	usable := known && (psk || dhe && share)
	cc2.OfferEarly = t.MaxEarly > 0 && s.CfgP(1, 2)
	cookie := cf.S.RequireCookie
	early := usable && cc2.OfferEarly && cf.S.AllowEarlyData && !cookie
	y := s.NewX("2", 2, cf, false, s.quickPol())
	y.cf.E.Early = early
	if cc2.OfferEarly {
		for _, b := range s.earlyWrites(4000) {
			cc2.Early = append(cc2.Early, y.earlyBytes(len(b)))
		}
	}
	y.MPlan, y.FPlan = s.xplan(false), s.xplan(false)
	y.start(false, func(t net.Conn) foreign { return s.newRef(t, &cc2, nil) })
	y.C.pos = len(y.early)
	s.K.Run(s.Failed)
	if !usable && !share {
		y.FinishX(false, "no key share was offered and no ticket that could do without")
		return
	}
	if !y.FinishX(true, "") {
		return
	}
	v := y.f.View()
	if v.PSK != usable || v.Early != early {
		s.Fail("interop-resumption", "the server knows the ticket: %v, modes offered: %v, may accept early data: %v; resumed: %v, early: %v", known, cc2.Modes, early, v.PSK, v.Early)
	}
	if usable && (v.Suite != t.Suite || v.ALPN != t.ALPN) {
		s.Fail("interop-resumption", "resumed with suite %04x and protocol %q instead of %04x and %q", v.Suite, v.ALPN, t.Suite, t.ALPN)
	}
	s.NonTriv = true
}

// runStd runs mint against crypto/tls, twice, the second time resuming.
func runStd(s *Sim, mintClient bool) {
	s.Sched()
	cf := s.GenConf(Gen{Auth: 30, NB: 50, Cookie: 10, BigCerts: true, Tickets: 70})
	cf.C.AllowEarlyData = false
	// crypto/tls takes messages of up to 64 kB
	for _, l := range [][]*mint.Certificate{cf.C.Certificates, cf.S.Certificates} {
		for i, x := range l {
			if len(x.Chain) > 15 {
				y := *x
				y.Chain = x.Chain[:15]
				l[i] = &y
			}
		}
	}
	sc := s.RefServer(cf)
	if sc.Key == nil {
		return
	}
	tc := &tls.Config{MinVersion: tls.VersionTLS13, NextProtos: sc.ALPN, Time: time.Now}
	if mintClient {
		tc.Certificates = []tls.Certificate{{Certificate: sc.Chain, PrivateKey: sc.Key}}
		var k [32]byte
		copy(k[:], Pattern(88, 0, 32))
		tc.SetSessionTicketKeys([][32]byte{k})
		if cf.S.RequireClientAuth {
			// an empty answer to the request is an answer for mint only
			tc.ClientAuth = tls.VerifyClientCertIfGiven
			tc.ClientCAs = Roots("root")
		}
	} else {
		tc.ServerName = cf.C.ServerName
		tc.RootCAs = Roots("root")
		tc.ClientSessionCache = tls.NewLRUClientSessionCache(4)
		if cc := s.RefClient(cf); cc.Key != nil {
			tc.Certificates = []tls.Certificate{{Certificate: cc.Chain, PrivateKey: cc.Key}}
		}
	}
	has := map[int]bool{}
	for _, g := range dflt(ints(cf.C.Groups), []int{29, 23}) {
		for _, h := range sc.Groups {
			has[g] = has[g] || g == h
		}
	}
	switch {
	case s.CfgP(1, 3) && has[29]:
		// its defaults, with a post-quantum share first
	case has[29]:
		tc.CurvePreferences = []tls.CurveID{tls.X25519}
	case has[23]:
		tc.CurvePreferences = []tls.CurveID{tls.CurveP256, tls.X25519}
		if !mintClient {
			tc.CurvePreferences = []tls.CurveID{tls.CurveP256}
		}
	}
	for i := 1; i <= 2; i++ {
		x := s.NewX(fmt.Sprint(i), uint32(i), cf, mintClient, s.LinkPol())
		x.MPlan, x.FPlan = s.xplan(false), s.xplan(false)
		x.cf.E.Early = false
		x.start(mintClient, func(t net.Conn) foreign {
			w := &impatient{t.(*Conn), x}
			if mintClient {
				return &stdEnd{tls.Server(w, tc)}
			}
			return &stdEnd{tls.Client(w, tc)}
		})
		s.K.Run(s.Failed)
		if !x.FinishX(true, "") {
			return
		}
		resumed := x.f.View().PSK
		s.Param("connection %d resumed: %v", i, resumed)
		if resumed {
			s.K.Probe("resumed")
		}
		if i == 2 && !mintClient && cf.S.SendSessionTickets && !resumed {
			s.Fail("interop-resumption", "crypto/tls did not resume at mint")
			return
		}
		if i == 2 && mintClient && !resumed {
			s.Fail("interop-resumption", "mint did not resume at crypto/tls")
			return
		}
		x.closeAll()
		if s.CheckPanics() {
			return
		}
		s.Pause(s.Dur("op", time.Hour-time.Minute))
	}
	s.NonTriv = true
}

package engine

import (
	"bytes"
	"crypto"
	"fmt"
	"net"
	"strings"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
)

func init() {
	register("C04",
		Scenario{"hostile-client", 12, hostileClient},
		Scenario{"replaying-client", 3, replayingClient},
		Scenario{"replayed-bytes", 2, replayedBytes},
		Scenario{"impostor", 5, func(s *Sim) { impostorClient(s, false) }},
		Scenario{"impostor-dtls", 3, func(s *Sim) { impostorClient(s, true) }},
	)
}

// serverPolicy draws how a server checks its clients.
func (s *Sim) serverPolicy(cf *Conf) *callback {
	if !s.CfgP(2, 3) {
		return nil
	}
	cb := &callback{}
	if s.CfgP(1, 3) {
		cb.err = fmt.Errorf("the application does not like it")
	}
	cf.S.VerifyPeerCertificate = cb.fn(s)
	return cb
}

// judgeServer fails if a server completed without what its configuration
// demands.
func (s *Sim) judgeServer(p *Peer, proof *ref.Proof, why string, cb *callback, key *mint.PreSharedKey, ageOff time.Duration) {
	if !p.Done || s.Failed() {
		return
	}
	if why != "" {
		s.Fail("client-not-authenticated", "%s completed although: %s", p.Name, why)
		return
	}
	cs := p.Conn.ConnectionState()
	if cs.UsingPSK != (proof.PSK >= 0) {
		s.Fail("client-not-authenticated", "%s reports psk=%v, the messages say %v", p.Name, cs.UsingPSK, proof.PSK >= 0)
		return
	}
	if proof.PSK >= 0 {
		if key != nil && key.ExpiresAt.Before(time.Now().Add(-time.Minute)) {
			s.Fail("expired-key", "%s accepted a key that had expired", p.Name)
			return
		}
		if key != nil && key.IsResumption && (ageOff > 20*time.Second || ageOff < -20*time.Second) {
			s.Fail("ticket-age", "%s accepted a ticket whose age was wrong by %v", p.Name, ageOff)
			return
		}
		if len(cs.PeerCertificates) > 0 {
			s.Fail("wrong-certificates", "%s reports a certificate though a key was used", p.Name)
		}
		return
	}
	if p.Cfg.RequireClientAuth && !proof.Request {
		s.Fail("client-not-asked", "%s requires client authentication but did not ask for it", p.Name)
		return
	}
	if len(cs.PeerCertificates) != len(proof.Raw) {
		s.Fail("wrong-certificates", "%s reports %d certificates, %d were proved", p.Name, len(cs.PeerCertificates), len(proof.Raw))
		return
	}
	for i := range proof.Raw {
		if !bytes.Equal(proof.Raw[i], cs.PeerCertificates[i].Raw) {
			s.Fail("wrong-certificates", "%s reports another certificate %d than was proved", p.Name, i)
			return
		}
	}
	if cb == nil || len(proof.Raw) == 0 {
		return
	}
	switch {
	case cb.calls == 0:
		s.Fail("callback-not-called", "%s reports a certificate without asking the application", p.Name)
	case cb.err != nil:
		s.Fail("callback-ignored", "%s completed although the application refused the certificate", p.Name)
	case len(cb.raw) != len(proof.Raw) || !bytes.Equal(cb.raw[0], proof.Raw[0]):
		s.Fail("callback-wrong", "%s showed the application another chain than the peer's", p.Name)
	}
}

// hostileClient: a mint server meets a client that deviates.
func hostileClient(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 45, Resume: 50, Early: 40, Auth: 70, NB: 50, Cookie: 15, Tickets: 20})
	hostileClientRun(s, cf, nil)
}

func hostileClientRun(s *Sim, cf *Conf, old map[string][]byte) {
	cb := s.serverPolicy(cf)
	cc := s.RefClient(cf)
	e := &evil{s: s, old: old}
	if cc.Key == nil && s.CfgP(2, 3) {
		x := PKI["client."+s.alg()]
		cc.Chain, cc.Key = rawChain(x), x.PrivateKey
	}
	if cc.OfferEarly {
		cc.Early = s.earlyWrites(1000)
	}
	hookTr := s.CfgP(2, 3)
	var ageOff time.Duration
	for i, n := 0, s.FaultW(1, 4, 2); i < n; i++ {
		switch s.FaultW(3, 3, 2, 2, 4, 3, 3, 2, 2, 3, 2) {
		case 0:
			nm := []string{"client.evil", "a.evil", "a.p256", "b.rsa", "client.p384", "root"}[s.Fault(6)]
			e.did("chain " + nm)
			cc.Chain = rawChain(PKI[nm])
			if cc.Key == nil {
				cc.Key = PKI["client.p256"].PrivateKey
			}
		case 1:
			nm := []string{"client.evil", "a.evil", "client.rsa", "b.rsa", "client.p256", "client.p384"}[s.Fault(6)]
			e.did("key " + nm)
			cc.Key = PKI[nm].PrivateKey
			if cc.Chain == nil {
				cc.Chain = rawChain(PKI["client.p256"])
			}
			if s.FaultP(1, 3) {
				e.did("certificate appended")
				cc.Chain = append(append([][]byte{}, cc.Chain...), PKI[nm].Chain[0].Raw)
			}
		case 2:
			k := s.Fault(4)
			e.did("sign-over")
			cc.SignOver = func(tr []byte) []byte {
				switch k {
				case 0:
					return nil
				case 1:
					return tr[:len(tr)-1]
				case 2:
					return tr[:len(tr)/2]
				}
				return append([]byte{0}, tr...)
			}
		case 3:
			e.did("skip-authentication")
			cc.NoCert = true
		case 4:
			// a key it does not know
			id := []byte("identity")
			suite := 0x1301
			res := s.FaultP(1, 2)
			var obf uint32
			if cf.PSK != nil {
				id, suite, res = cf.PSK.Identity, int(cf.PSK.CipherSuite), cf.PSK.IsResumption
				obf = cf.PSK.TicketAgeAdd
			}
			guess := [][]byte{nil, make([]byte, 32), Pattern(1, 0, 32), id}[s.Fault(4)]
			e.did("guess-key")
			p := ref.PSK{ID: id, Key: guess, Suite: suite, Resumption: res, Obfuscated: obf}
			switch s.Fault(3) {
			case 0:
				cc.PSKs = []ref.PSK{p}
			case 1:
				cc.PSKs = append([]ref.PSK{p}, cc.PSKs...)
			case 2:
				cc.PSKs = append(cc.PSKs, p)
			}
		case 5:
			if len(cc.PSKs) > 0 {
				ageOff = []time.Duration{time.Minute, -time.Minute, 40 * 24 * time.Hour, -24 * time.Hour, 49*24*time.Hour + 17*time.Hour, 25 * time.Second}[s.Fault(6)]
				e.did("ticket-age")
				for i := range cc.PSKs {
					cc.PSKs[i].Obfuscated += uint32(ageOff / time.Millisecond)
				}
			}
		case 6:
			if cf.PSK != nil {
				e.did("expired-key")
				k := *cf.PSK
				k.ExpiresAt = time.Now().Add(-time.Duration(2+s.Fault(100)) * time.Minute)
				k.ReceivedAt = k.ExpiresAt.Add(-time.Hour)
				cf.PSK = &k
				for id := range cf.SStore.m {
					cf.SStore.m[id] = k
				}
			}
		case 7:
			e.did("bad-finished")
			cc.BadFin = true
		case 8:
			if len(cc.PSKs) > 0 {
				e.did("other-binder-label")
				cc.PSKs[0].Resumption = !cc.PSKs[0].Resumption
			}
		case 10:
			if cc.Key != nil {
				e.did("scheme")
				cc.SigScheme = s.anyScheme(cc.Key)
			}
		case 9:
			if len(cc.PSKs) > 0 {
				k := s.FaultW(2, 1, 2, 3, 1)
				at := s.Fault(300)
				if k == 3 {
					e.did("short-binders")
					cc.BinderLen = []int{32, 0, 32, 31, 47, 32, 16, 24, 33, 1}[at%10]
					break
				}
				e.did("edit-binders")
				cc.EditSigned = func(m []byte, second bool) []byte {
					m = append([]byte{}, m...)
					switch k {
					case 0: // flip a bit near the end
						m[len(m)-1-at%32] ^= byte(1 << (at % 8))
					case 1: // the first binder becomes zeros
						for i := len(m) - 32; i < len(m); i++ {
							m[i] = 0
						}
					case 2: // anything before the binders
						m[6+at%(len(m)-60)] ^= byte(1 << (at % 8))
					case 4:
						m[len(m)-33] ^= byte(1 << (at % 6)) // its length
					}
					return m
				}
			}
		}
	}
	e.key = cc.Key
	e.program([]string{"CH", "CH2", "EOED", "CCERT", "CCV", "CFIN", "CCERT", "CCV", "CFIN"}, s.FaultW(3, 4, 3, 2))
	x := s.NewX("", 1, cf, false, s.quickPol())
	x.NoApp, x.Quiet, x.J = true, true, Judge{}
	var r *refEnd
	x.start(false, func(t net.Conn) foreign {
		r = s.newRef(t, cc, nil)
		e.c = r.c
		r.c.HookTr = hookTr
		r.c.Hook = e.hook
		return r
	})
	s.K.Run(s.Failed)
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	s.Param("hostile client: %s (transcript follows: %v)", strings.Join(e.acts, ", "), hookTr)
	var used *mint.PreSharedKey
	p, why := r.c.ClientProof(func(id []byte) *ref.PSK {
		k, ok := cf.SStore.m[hexID(id)]
		if !ok {
			return nil
		}
		used = &k
		q := refPSK(k)
		return &q
	})
	s.judgeServer(x.M, p, why, cb, used, ageOff)
	s.K.Probe(map[bool]string{true: "completed", false: "refused"}[x.M.Done])
	s.NonTriv = e.n > 0 || x.M.Done
}

// replayingClient has what an honest client sent this server before.
func replayingClient(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Resume: 30, Early: 30, Auth: 80, NB: 50})
	cc := s.RefClient(cf)
	if cc.OfferEarly {
		cc.Early = s.earlyWrites(1000)
	}
	old := map[string][]byte{}
	x := s.NewX("0", 1, cf, false, &LinkPolicy{})
	x.NoApp = true
	x.start(false, func(t net.Conn) foreign {
		r := s.newRef(t, cc, nil)
		r.c.Hook = func(c *ref.Conn, name string, msg []byte) [][]byte {
			old[name] = append([]byte{}, msg...)
			return [][]byte{msg}
		}
		return r
	})
	s.K.Run(s.Failed)
	if s.K.Panicked() != nil {
		return
	}
	x.closeAll()
	hostileClientRun(s, cf, old)
}

// replayedBytes: everything an honest client sent is sent again.
func replayedBytes(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 60, Resume: 30, Early: 60, Auth: 40, NB: 50, Cookie: 20})
	x := s.NewSession("0", 9, cf, &LinkPolicy{}, Judge{})
	x.NoApp = true
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(1000)
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.K.Panicked() != nil {
		return
	}
	x.closeAll()
	wire := bytes.Join(x.CT.Out.Wire, nil)
	if !x.S.Done || len(wire) == 0 {
		return
	}
	y := s.NewSession("", 1, cf, s.LinkPol(), Judge{})
	y.Quiet, y.NoApp = true, true
	y.S = NewPeer(s, "s", cf.S, y.ST, false)
	y.C = newShadow(s, "c", y.CT, true)
	y.C.other, y.S.other = y.S, y.C
	y.S.Go("hs", func() { y.server() })
	s.K.Faults["replay"]++
	y.C.Go("replay", func() {
		y.CT.Write(wire)
		buf := make([]byte, 4096)
		for i := 0; i < 20; i++ {
			if _, err := y.CT.Read(buf); err != nil {
				break
			}
		}
	})
	s.K.Run(s.Failed)
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	if y.S.Done {
		s.Fail("client-not-authenticated", "%s completed with a recording of another connection", y.S.Name)
	}
	s.NonTriv = true
}

// impostorClient: both ends are mint, but the client has wrong credentials.
func impostorClient(s *Sim, dtls bool) {
	s.Sched()
	nb := 50
	if dtls {
		nb = 100
	}
	cf := s.GenConf(Gen{DTLS: dtls, PSK: 40, Resume: 40, Early: 30, Auth: 80, NB: nb, Cookie: 15})
	cb := s.serverPolicy(cf)
	what := "genuine"
	var shown *mint.Certificate
	var off time.Duration
	switch s.FaultW(3, 3, 3, 3) {
	case 0:
	case 1:
		nm := "client." + s.alg()
		shown = &mint.Certificate{Chain: PKI[nm].Chain, PrivateKey: PKI[[]string{"client.evil", "b.p256", "b.rsa", "b.p384", "b.p521"}[s.Fault(5)]].PrivateKey}
		cf.C.Certificates = []*mint.Certificate{shown}
		what = "wrong private key for " + nm
	case 2:
		if cf.PSK != nil {
			what = "wrong pre-shared key"
			k := *cf.PSK
			k.Key = append([]byte{}, k.Key...)
			k.Key[s.Fault(len(k.Key))] ^= byte(1 + s.Fault(255))
			cf.CStore.m[cf.C.ServerName] = k
		}
	case 3:
		if cf.PSK != nil && len(cf.SStore.m) > 0 {
			k := *cf.PSK
			if k.IsResumption && s.FaultP(1, 2) {
				what = "ticket of the wrong age"
				off = []time.Duration{time.Minute, -time.Minute, 24 * time.Hour}[s.Fault(3)]
				k.ReceivedAt = k.ReceivedAt.Add(-off)
				if !k.IsResumption {
					off = 0
				}
				cf.CStore.m[cf.C.ServerName] = k
			} else {
				what = "expired key"
				k.ExpiresAt = time.Now().Add(-time.Duration(2+s.Fault(100)) * time.Minute)
				k.ReceivedAt = k.ExpiresAt.Add(-time.Hour)
				cf.SStore.m = map[string]mint.PreSharedKey{hexID(k.Identity): k}
			}
		}
	}
	if what != "genuine" {
		s.K.Faults["hostile-credentials"]++
	}
	s.Param("impostor: %s", what)
	var v *Peer
	if dtls {
		pol := s.DPol(s.CfgP(1, 2))
		s.FaultEnd = s.Dur("fault", 3*time.Second)
		x := s.NewDSession("", 1, cf, pol)
		x.Hostile, x.NoApp = true, true
		x.Start()
		s.K.Run(s.Failed)
		v = x.S
	} else {
		x := s.NewSession("", 1, cf, s.quickPol(), Judge{})
		x.Quiet, x.NoApp = true, true
		if cf.C.AllowEarlyData {
			x.Early = s.earlyWrites(1000)
		}
		x.Start()
		s.K.Run(s.Failed)
		v = x.S
	}
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	s.NonTriv = true
	if !v.Done {
		s.K.Probe("refused")
		return
	}
	s.K.Probe("completed")
	cs := v.Conn.ConnectionState()
	if cs.UsingPSK {
		k, ok := cf.CStore.m[cf.C.ServerName]
		w, known := cf.SStore.m[hexID(k.Identity)]
		switch {
		case !ok || !known || !bytes.Equal(k.Key, w.Key):
			s.Fail("client-not-authenticated", "%s completed with a pre-shared key that its peer does not have", v.Name)
		case w.ExpiresAt.Before(time.Now().Add(-time.Minute)):
			s.Fail("expired-key", "%s accepted a key that had expired", v.Name)
		case off != 0:
			s.Fail("ticket-age", "%s accepted a ticket whose age was wrong by %v", v.Name, off)
		}
		return
	}
	if len(cs.PeerCertificates) == 0 {
		return
	}
	for _, x := range cf.C.Certificates {
		type eq interface{ Equal(crypto.PublicKey) bool }
		if x.Chain[0].Equal(cs.PeerCertificates[0]) {
			if !x.Chain[0].PublicKey.(eq).Equal(x.PrivateKey.Public()) {
				s.Fail("client-not-authenticated", "%s accepted a certificate whose key its peer does not have", v.Name)
				return
			}
			if cb != nil && (cb.calls == 0 || cb.err != nil) {
				s.Fail("callback-ignored", "%s completed although the application was not asked (%d calls) or refused the certificate", v.Name, cb.calls)
			}
			return
		}
	}
	s.Fail("wrong-certificates", "%s reports a certificate its client does not have", v.Name)
}

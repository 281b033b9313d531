package engine

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/x509"
	"errors"
	"fmt"
	"net"
	"os"
	"sort"
	"strings"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

func init() {
	os.Setenv("SSL_CERT_FILE", "/nonexistent")
	os.Setenv("SSL_CERT_DIR", "/nonexistent")
	register("C03",
		Scenario{"hostile-server", 12, hostileServer},
		Scenario{"replaying-server", 4, replayingServer},
		Scenario{"again", 4, again},
		Scenario{"impostor", 5, func(s *Sim) { impostor(s, false) }},
		Scenario{"impostor-dtls", 3, func(s *Sim) { impostor(s, true) }},
	)
}

// names of chains that a client which trusts "root" and wants a.example.com
// must refuse, and of ones it accepts.
var badChains = []string{"a.evil", "a.fake", "a.expired", "a.future", "a.self", "a.byleaf", "a.nointer", "b.p256", "b.rsa", "client.p256", "evilroot", "root", "fakeroot", "a.clientonly", "a.code", "a.cnonly", "a.constrained", "a.clientca"}
var goodChains = []string{"a.p256", "a.p384", "a.p521", "a.rsa", "a.inter", "a.short", "a.serveronly", "a.wild"}

// otherRoots draws what else a client might trust; nil is the system's roots,
// of which there are none (see init).
func (s *Sim) otherRoots() *x509.CertPool {
	l := [][]string{nil, {"evilroot"}, {"root", "evilroot"}, {"fakeroot"}}[s.Cfg(4)]
	if l == nil {
		return nil
	}
	return Roots(l...)
}

func nRoots(p *x509.CertPool) int {
	if p == nil {
		return -1
	}
	return len(p.Subjects())
}

// callback is an application's verification callback.
type callback struct {
	calls  int
	raw    [][]byte
	chains [][]*x509.Certificate
	err    error
	at     time.Time
}

func (b *callback) fn(s *Sim) func([][]byte, [][]*x509.Certificate) error {
	return func(raw [][]byte, ch [][]*x509.Certificate) error {
		b.calls++
		b.raw, b.chains, b.at = raw, ch, time.Now().Add(simrt.Skew())
		s.K.Logf("callback with %d certificates -> %v", len(raw), b.err)
		return b.err
	}
}

// clientPolicy draws how a client verifies its peer.
func (s *Sim) clientPolicy(cf *Conf) *callback {
	c := cf.C
	if s.CfgP(1, 6) {
		c.InsecureSkipVerify = true
	}
	var cb *callback
	if s.CfgP(1, 2) {
		cb = &callback{}
		if s.CfgP(1, 3) {
			cb.err = errors.New("the application does not like it")
		}
		c.VerifyPeerCertificate = cb.fn(s)
	}
	if s.CfgP(1, 5) {
		c.RootCAs = s.otherRoots()
	}
	if s.CfgP(1, 5) {
		c.ServerName = []string{nameB, "a.example.com.evil.com", "x.a.example.com", "example.com"}[s.Cfg(4)]
	}
	off := time.Duration(0)
	if s.FaultP(1, 5) {
		off = []time.Duration{2 * time.Hour, -2 * time.Hour, 50 * 365 * 24 * time.Hour, -3 * 365 * 24 * time.Hour}[s.Fault(4)]
		s.K.Faults["clock-offset"]++
		c.Time = func() time.Time { return time.Now().Add(off) }
	}
	s.Param("client insecure=%v roots=%d callback=%v name=%s clock%+v", c.InsecureSkipVerify, nRoots(c.RootCAs), cb != nil, c.ServerName, off)
	return cb
}

// judgeClient fails if a client completed without what its configuration
// demands. proof and why come from the messages on the wire.
func (s *Sim) judgeClient(p *Peer, proof *ref.Proof, why string, cb *callback) {
	if !p.Done || s.Failed() {
		return
	}
	c := p.Cfg
	if why != "" {
		s.Fail("server-not-authenticated", "%s completed although: %s", p.Name, why)
		return
	}
	cs := p.Conn.ConnectionState()
	if cs.UsingPSK != (proof.PSK >= 0) {
		s.Fail("server-not-authenticated", "%s reports psk=%v, the messages say %v", p.Name, cs.UsingPSK, proof.PSK >= 0)
		return
	}
	if proof.PSK >= 0 {
		return
	}
	if len(cs.PeerCertificates) != len(proof.Raw) {
		s.Fail("wrong-certificates", "%s reports %d certificates, %d were sent", p.Name, len(cs.PeerCertificates), len(proof.Raw))
		return
	}
	for i := range proof.Raw {
		if !bytes.Equal(proof.Raw[i], cs.PeerCertificates[i].Raw) {
			s.Fail("wrong-certificates", "%s reports another certificate %d than was sent", p.Name, i)
			return
		}
	}
	if !c.InsecureSkipVerify {
		o := x509.VerifyOptions{Roots: c.RootCAs, DNSName: c.ServerName, CurrentTime: c.Time(), Intermediates: x509.NewCertPool()}
		for _, x := range proof.Chain[1:] {
			o.Intermediates.AddCert(x)
		}
		if _, err := proof.Chain[0].Verify(o); err != nil {
			s.Fail("server-not-trusted", "%s completed with %q: %v", p.Name, certName(proof.Chain[0]), err)
			return
		}
		if len(cs.VerifiedChains) == 0 {
			s.Fail("no-verified-chain", "%s verifies certificates but reports no verified chain", p.Name)
			return
		}
		for _, v := range cs.VerifiedChains {
			if len(v) == 0 || !v[0].Equal(proof.Chain[0]) {
				s.Fail("no-verified-chain", "%s reports a verified chain for another certificate", p.Name)
				return
			}
		}
	}
	if cb == nil {
		return
	}
	switch {
	case cb.calls == 0:
		s.Fail("callback-not-called", "%s completed without asking the application", p.Name)
	case cb.err != nil:
		s.Fail("callback-ignored", "%s completed although the application refused the certificate", p.Name)
	case len(cb.raw) != len(proof.Raw) || !bytes.Equal(cb.raw[0], proof.Raw[0]):
		s.Fail("callback-wrong", "%s showed the application another chain than the peer's", p.Name)
	case !c.InsecureSkipVerify && len(cb.chains) == 0:
		s.Fail("callback-wrong", "%s showed the application no verified chain", p.Name)
	}
}

// evil is a hostile endpoint of package ref: what it does to its own flight.
type evil struct {
	s      *Sim
	c      *ref.Conn
	server bool
	acts   []string
	held   map[string][]byte
	old    map[string][]byte // messages of an earlier connection
	chain  [][]byte
	key    crypto.Signer
	prog   map[string][]int
	busy   bool
	n      int
}

func (e *evil) did(f string) {
	e.acts = append(e.acts, f)
	e.s.K.Faults["hostile-"+strings.SplitN(f, " ", 2)[0]]++
	e.n++
}

// program draws what to do with each message of the flight.
func (e *evil) program(names []string, edits int) {
	e.prog = map[string][]int{}
	e.held = map[string][]byte{}
	for i := 0; i < edits; i++ {
		n := names[e.s.Fault(len(names))]
		e.prog[n] = append(e.prog[n], e.s.FaultW(3, 2, 2, 3, 3, 3, 2))
	}
}

// forged draws a message that might stand in for another.
func (e *evil) forged(msg []byte) (string, []byte) {
	s, c := e.s, e.c
	sch := 0x0403
	switch s.Fault(13) {
	case 0:
		return "finished-now", c.FinNow()
	case 1:
		return "empty-certificate", ref.CertMsg(nil)
	case 2:
		return "other-certificate", ref.CertMsg(rawChain(PKI[append(append([]string{}, badChains...), goodChains...)[s.Fault(len(badChains)+len(goodChains))]]))
	case 3:
		if e.key != nil {
			return "signature-now", c.CVNow(sch, e.key, e.server)
		}
		return "signature-other-key", c.CVNow(sch, PKI["a.evil"].PrivateKey, e.server)
	case 4:
		return "signature-other-key", c.CVNow(sch, PKI["a.evil"].PrivateKey, e.server)
	case 5:
		return "signature-other-context", c.CVNow(sch, PKI["a.p256"].PrivateKey, !e.server)
	case 6:
		return "empty-message", append(append([]byte{}, msg[0]), 0, 0, 0)
	case 7:
		if len(e.old) > 0 {
			var k []string
			for n := range e.old {
				k = append(k, n)
			}
			sort.Strings(k)
			n := k[s.Fault(len(k))]
			return "replayed-message", e.old[n]
		}
	case 8:
		if len(msg) > 5 {
			n := s.Fault(len(msg) - 4)
			return "truncated-message", ref.Msg(int(msg[0]), msg[4:4+n])
		}
	case 9:
		return "extended-message", ref.Msg(int(msg[0]), append(append([]byte{}, msg[4:]...), Pattern(3, 0, 1+s.Fault(40))...))
	case 10:
		if len(msg) > 4 {
			m := append([]byte{}, msg...)
			m[4+s.Fault(len(m)-4)] ^= byte(1 << s.Fault(8))
			return "flipped-bit", m
		}
	case 11:
		return "other-type", append([]byte{byte(s.Fault(26))}, msg[1:]...)
	case 12:
		return "zero-signature", ref.Msg(15, []byte{4, 3, 0, 0})
	}
	return "finished-now", c.FinNow()
}

// hook applies the program.
func (e *evil) hook(c *ref.Conn, name string, msg []byte) [][]byte {
	if e.busy {
		return [][]byte{msg}
	}
	e.busy = true
	defer func() { e.busy = false }()
	s := e.s
	cur := msg
	dropped := false
	times := 1
	for _, a := range e.prog[name] {
		switch a {
		case 0:
			e.did("omit " + name)
			dropped = true
		case 1:
			e.did("repeat " + name)
			times = 2
		case 2:
			e.did("hold " + name)
			e.held[name] = msg
			dropped = true
		case 3:
			var w string
			w, cur = e.forged(msg)
			e.did(w + " for " + name)
		case 4, 5:
			w, m := e.forged(msg)
			e.did(w + " before " + name)
			c.Queue("X", m)
		case 6:
			for _, k := range []string{"SH", "EE", "CR", "SCERT", "SCV", "SFIN", "EOED", "CCERT", "CCV", "CFIN"} {
				if h, ok := e.held[k]; ok {
					e.did("late " + k)
					c.Queue("X", h)
					delete(e.held, k)
				}
			}
		}
	}
	if name == "SFIN" || name == "CFIN" {
		if len(e.prog[name]) == 0 && e.n > 0 && c.HookTr && s.FaultP(1, 2) {
			// right for what has really been sent
			cur = c.FinNow()
			e.acts = append(e.acts, "matching Finished")
		}
	}
	if dropped {
		return nil
	}
	out := [][]byte{cur}
	if times == 2 {
		out = append(out, cur)
	}
	return out
}

// anyScheme is a scheme that a key can sign with, asked for or not.
func (s *Sim) anyScheme(k crypto.Signer) int {
	if x, ok := k.(*ecdsa.PrivateKey); ok {
		l := []int{ref.SigP256, ref.SigP384, ref.SigP521}
		i := map[int]int{256: 0, 384: 1, 521: 2}[x.Curve.Params().BitSize]
		return l[(i+s.FaultW(4, 1, 1))%3]
	}
	return []int{ref.SigPKCS256, ref.SigPKCS384, ref.SigPKCS512, ref.SigPSS256, ref.SigPSS384, ref.SigPSS512, ref.SigPKCS1}[s.Fault(7)]
}

// hostileServer: a mint client meets a server that deviates.
func hostileServer(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Resume: 40, Early: 30, Auth: 20, NB: 50, BigCerts: s.CfgP(1, 8), Slow: s.CfgP(1, 40)})
	cb := s.clientPolicy(cf)
	hostileServerRun(s, cf, cb, nil)
}

func hostileServerRun(s *Sim, cf *Conf, cb *callback, old map[string][]byte) {
	sc := s.RefServer(cf)
	if s.CfgP(1, 2) || sc.Key == nil {
		x := PKI[goodChains[s.CfgW(5, 1, 1, 2, 2, 1, 1, 1)]]
		sc.Chain, sc.Key = rawChain(x), x.PrivateKey
	}
	if cf.E.PSK {
		sc.Suites = refSuites
		if !cf.E.DH {
			sc.Modes = []int{0}
		}
	}
	if s.CfgP(1, 3) {
		sc.Auth = true
	}
	e := &evil{s: s, server: true, old: old}
	var r *refEnd
	x := s.NewX("", 1, cf, true, s.LinkPol())
	x.NoApp = true
	x.Quiet = true
	x.J = Judge{}
	if cf.C.AllowEarlyData {
		x.Early = s.earlyWrites(1000)
	}
	hookTr := s.CfgP(2, 3)
	// deviations that are more than edits of messages
	for i, n := 0, s.FaultW(1, 4, 2); i < n; i++ {
		switch s.FaultW(4, 2, 3, 2, 2, 3, 2, 1, 2, 2, 2) {
		case 0:
			nm := badChains[s.Fault(len(badChains))]
			e.did("chain " + nm)
			sc.Chain, sc.Key = rawChain(PKI[nm]), PKI[nm].PrivateKey
		case 1:
			nm := []string{"a.evil", "b.p256", "b.rsa", "client.rsa", "client.p256", "b.p384"}[s.Fault(6)]
			e.did("key " + nm)
			sc.Key = PKI[nm].PrivateKey
			if s.FaultP(1, 3) {
				// its own certificate behind the genuine chain
				e.did("certificate appended")
				sc.Chain = append(append([][]byte{}, sc.Chain...), PKI[nm].Chain[0].Raw)
			}
		case 2:
			k := s.Fault(4)
			e.did("sign-over")
			sc.SignOver = func(tr []byte) []byte {
				switch k {
				case 0:
					return nil
				case 1:
					return tr[:len(tr)-1]
				case 2:
					return tr[:len(tr)/2]
				}
				return append([]byte{0}, tr...)
			}
		case 3:
			e.did("skip-certificate")
			sc.SkipCert = true
		case 4:
			e.did("skip-signature")
			sc.SkipCV = true
		case 5:
			// claims a key it does not know
			guess := [][]byte{nil, make([]byte, 32), Pattern(1, 0, 32), make([]byte, 48)}[s.Fault(4)]
			if cf.PSK != nil && s.FaultP(1, 3) {
				guess = cf.PSK.Identity
			}
			sc.PSKs = nil
			sc.ForcePSK = &ref.PSK{Key: guess}
			idx := []int{0, 0, 0, 1, 65535}[s.Fault(5)]
			noDH := s.FaultP(1, 3)
			sc.NoDH = noDH
			e.did("claim-psk")
			sc.EditSH = func(sh *ref.ServerHello) {
				sh.Exts = append(sh.Exts, ref.Ext{Type: ref.ExtPSK, Data: []byte{byte(idx >> 8), byte(idx)}})
			}
		case 6:
			e.did("claim-psk-with-certificate")
			sc.PSKs = nil
			sc.EditSH = func(sh *ref.ServerHello) {
				sh.Exts = append(sh.Exts, ref.Ext{Type: ref.ExtPSK, Data: []byte{0, 0}})
			}
		case 7:
			e.did("no-key-exchange")
			sc.NoDH = true
		case 8:
			e.did("bad-finished")
			sc.BadFin = true
		case 9:
			e.did("no-finished")
			sc.SkipFin = true
		case 10:
			e.did("scheme")
			sc.Scheme = s.anyScheme(sc.Key)
		}
	}
	if s.FaultP(1, 6) {
		sc.HRR, sc.Cookie = 1, Pattern(55, 0, 1+s.Cfg(60))
	}
	e.key = sc.Key
	names := []string{"SH", "EE", "CR", "SCERT", "SCV", "SFIN", "SCERT", "SCV", "SFIN", "HRR"}
	e.program(names, s.FaultW(3, 4, 3, 2))
	x.start(true, func(t net.Conn) foreign {
		r = s.newRef(t, nil, sc)
		e.c = r.c
		r.c.HookTr = hookTr
		r.c.Hook = e.hook
		return r
	})
	s.K.Run(s.Failed)
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	s.Param("hostile server: %s (transcript follows: %v)", strings.Join(e.acts, ", "), hookTr)
	offered := []ref.PSK{}
	if k, ok := cf.CStore.m[cf.C.ServerName]; ok {
		offered = append(offered, refPSK(k))
	}
	p, why := r.c.ServerProof(offered)
	s.judgeClient(x.M, p, why, cb)
	s.K.Probe(map[bool]string{true: "completed", false: "refused"}[x.M.Done])
	s.NonTriv = e.n > 0 || x.M.Done
}

// replayingServer has everything that an honest server sent this very client
// before.
func replayingServer(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 20, Resume: 40, Auth: 20, NB: 50})
	sc := s.RefServer(cf)
	if sc.Key == nil {
		return
	}
	if cf.E.PSK {
		sc.Suites = refSuites
		if !cf.E.DH {
			sc.Modes = []int{0}
		}
	}
	old := map[string][]byte{}
	x := s.NewX("0", 1, cf, true, &LinkPolicy{})
	x.NoApp = true
	x.start(true, func(t net.Conn) foreign {
		r := s.newRef(t, nil, sc)
		r.c.Hook = func(c *ref.Conn, name string, msg []byte) [][]byte {
			old[name] = append([]byte{}, msg...)
			return [][]byte{msg}
		}
		return r
	})
	s.K.Run(s.Failed)
	if s.K.Panicked() != nil {
		return
	}
	x.closeAll()
	hostileServerRun(s, cf, nil, old)
}

// again: one client configuration serves for several connections, and what it
// demands, its clock and what the servers show change between them.
func again(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 10, Auth: 10, NB: 50})
	sc := s.RefServer(cf)
	if sc.Key == nil || cf.E.PSK {
		return
	}
	roots := cf.C.RootCAs
	all := append(append([]string{}, goodChains...), badChains...)
	show := all[s.Cfg(len(goodChains))]
	done, refused := 0, 0
	for i, n := 0, 2+s.Cfg(3); i < n; i++ {
		c := cf.C
		if s.CfgP(1, 2) {
			c = c.Clone()
		}
		c.InsecureSkipVerify = s.CfgP(1, 8)
		c.ServerName, c.RootCAs, c.VerifyPeerCertificate = nameA, roots, nil
		if s.CfgP(1, 4) {
			c.ServerName = []string{nameB, "x.a.example.com", "example.com"}[s.Cfg(3)]
		}
		if s.CfgP(1, 5) {
			c.RootCAs = s.otherRoots()
		}
		off := time.Duration(0)
		if s.FaultP(1, 3) {
			off = []time.Duration{2 * time.Hour, -2 * time.Hour, 50 * 365 * 24 * time.Hour, -3 * 365 * 24 * time.Hour}[s.Fault(4)]
			s.K.Faults["clock-offset"]++
		}
		c.Time = func() time.Time { return time.Now().Add(off) }
		var cb *callback
		if s.CfgP(1, 3) {
			cb = &callback{}
			if s.CfgP(1, 3) {
				cb.err = errors.New("the application does not like it")
			}
			c.VerifyPeerCertificate = cb.fn(s)
		}
		if s.FaultP(1, 3) {
			show = all[s.Fault(len(all))]
		}
		sc2 := *sc
		sc2.Chain, sc2.Key = rawChain(PKI[show]), PKI[show].PrivateKey
		s.Param("connection %d: insecure=%v roots=%d callback=%v name=%s clock%+v shown %s", i, c.InsecureSkipVerify, nRoots(c.RootCAs), cb != nil, c.ServerName, off, show)
		cf2 := *cf
		cf2.C = c
		var r *refEnd
		x := s.NewX(fmt.Sprint(i), uint32(i+1), &cf2, true, s.quickPol())
		x.NoApp, x.Quiet = true, true
		x.J = Judge{}
		x.start(true, func(t net.Conn) foreign {
			r = s.newRef(t, nil, &sc2)
			return r
		})
		s.K.Run(s.Failed)
		if s.Failed() || s.K.Panicked() != nil {
			return
		}
		offered := []ref.PSK{}
		if k, ok := cf.CStore.m[c.ServerName]; ok {
			offered = append(offered, refPSK(k))
		}
		p, why := r.c.ServerProof(offered)
		s.judgeClient(x.M, p, why, cb)
		if s.Failed() {
			return
		}
		if x.M.Done {
			done++
		} else {
			refused++
		}
		x.closeAll()
		s.K.Run(s.Failed)
	}
	s.NonTriv = done > 0 && refused > 0
}

// impostor: both ends are mint, but the server has the wrong credentials.
func impostor(s *Sim, dtls bool) {
	s.Sched()
	nb := 50
	if dtls {
		nb = 100
	}
	cf := s.GenConf(Gen{DTLS: dtls, PSK: 30, Resume: 40, Early: 30, Auth: 20, NB: nb, Cookie: 15})
	cb := s.clientPolicy(cf)
	what := "chain"
	var shown *mint.Certificate
	switch s.FaultW(4, 2, 3) {
	case 0:
		nm := append(append([]string{}, badChains...), goodChains...)[s.Fault(len(badChains)+len(goodChains))]
		// whatever name the server selects by, this is what it shows
		shown = PKI[nm]
		what = "chain " + nm
	case 1:
		nm := goodChains[s.FaultW(5, 1, 1, 2)]
		shown = &mint.Certificate{Chain: PKI[nm].Chain, PrivateKey: PKI[[]string{"a.evil", "b.p256", "b.rsa", "b.p384"}[s.Fault(4)]].PrivateKey}
		what = "wrong private key for " + nm
	default:
		if cf.PSK == nil {
			shown = PKI["a.evil"]
			break
		}
		what = "wrong pre-shared key"
		k := *cf.PSK
		k.Key = append([]byte{}, k.Key...)
		k.Key[s.Fault(len(k.Key))] ^= byte(1 + s.Fault(255))
		cf.SStore.m = map[string]mint.PreSharedKey{}
		cf.SStore.m[hexID(k.Identity)] = k
	}
	s.K.Faults["hostile-credentials"]++
	if shown != nil {
		// a server picks by the name in its leaf: ask for that name, so that
		// it is the client that has to refuse
		cf.S.Certificates = []*mint.Certificate{shown}
		if n := shown.Chain[0].DNSNames; len(n) > 0 && s.FaultP(1, 2) {
			cf.C.ServerName = n[0]
		}
		cf.S.SignatureSchemes, cf.C.SignatureSchemes = nil, nil
	}
	s.Param("impostor: %s; name asked for %s", what, cf.C.ServerName)
	var c, v *Peer
	if dtls {
		pol := s.DPol(s.CfgP(1, 2))
		s.FaultEnd = s.Dur("fault", 3*time.Second)
		x := s.NewDSession("", 1, cf, pol)
		x.Hostile, x.NoApp = true, true
		x.Start()
		s.K.Run(s.Failed)
		c, v = x.C, x.S
	} else {
		x := s.NewSession("", 1, cf, s.LinkPol(), Judge{})
		x.Quiet, x.NoApp = true, true
		if cf.C.AllowEarlyData {
			x.Early = s.earlyWrites(1000)
		}
		x.Start()
		s.K.Run(s.Failed)
		c, v = x.C, x.S
	}
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	s.NonTriv = true
	if !c.Done {
		s.K.Probe("refused")
		return
	}
	s.K.Probe("completed")
	cs := c.Conn.ConnectionState()
	if cs.UsingPSK {
		k, ok := cf.CStore.m[cf.C.ServerName]
		w, known := cf.SStore.m[hexID(k.Identity)]
		if !ok || !known || !bytes.Equal(k.Key, w.Key) {
			s.Fail("server-not-authenticated", "%s completed with a pre-shared key that its peer does not have", c.Name)
		}
		return
	}
	pr := &ref.Proof{PSK: -1}
	if shown == nil {
		for _, x := range cf.S.Certificates {
			if len(cs.PeerCertificates) > 0 && x.Chain[0].Equal(cs.PeerCertificates[0]) {
				shown = x
			}
		}
	}
	why := ""
	if shown == nil {
		why = "the server has no such certificate"
	} else {
		pr.Chain = shown.Chain
		pr.Raw = rawChain(shown)
		type eq interface{ Equal(crypto.PublicKey) bool }
		if !shown.Chain[0].PublicKey.(eq).Equal(shown.PrivateKey.Public()) {
			why = "the server does not have the private key of its certificate"
		}
	}
	s.judgeClient(c, pr, why, cb)
	_ = v
}

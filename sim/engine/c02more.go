package engine

import (
	"errors"
	"fmt"
	"net"
	"strings"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
)

func init() {
	register("C02",
		Scenario{"dictated", 3, dictated},
		Scenario{"demanding", 3, demanding},
	)
}

func hasMode(l []mint.PSKKeyExchangeMode, m mint.PSKKeyExchangeMode) bool {
	if len(l) == 0 {
		return true
	}
	for _, x := range l {
		if x == m {
			return true
		}
	}
	return false
}

func hasStr(l []string, v string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func hasInt(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// allowedBy fails if an endpoint completed with a value that its own
// configuration excludes. group is 0 if no key exchange took place.
func (s *Sim) allowedBy(p *Peer, group int) bool {
	c, cs := p.Cfg, p.Conn.ConnectionState()
	bad := func(what string, v interface{}) bool {
		s.Fail("value-not-allowed", "%s completed with %s %v, which its configuration does not allow", p.Name, what, v)
		return false
	}
	if !hasInt(dflt(ints(c.CipherSuites), refSuites), int(cs.CipherSuite.Suite)) {
		return bad("suite", cs.CipherSuite.Suite)
	}
	if cs.NextProto != "" && !hasStr(c.NextProtos, cs.NextProto) {
		return bad("protocol", cs.NextProto)
	}
	if group != 0 && !hasInt(dflt(ints(c.Groups), []int{23, 24, 256, 29}), group) {
		return bad("group", group)
	}
	if cs.UsingPSK {
		m := mint.PSKModeKE
		if group != 0 {
			m = mint.PSKModeDHEKE
		}
		if !hasMode(c.PSKModes, m) {
			return bad("key exchange mode", m)
		}
	}
	if cs.UsingEarlyData && (!c.AllowEarlyData || !cs.UsingPSK) {
		return bad("early data", cs.UsingEarlyData)
	}
	return true
}

// dictated: a server that holds the right keys chooses what the client did
// not offer.
func dictated(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 60, Resume: 40, Early: 50, Auth: 20, NB: 50, Incompat: s.CfgP(1, 4)})
	sc := s.RefServer(cf)
	if sc.Key == nil {
		x := PKI["a.p256"]
		sc.Chain, sc.Key = rawChain(x), x.PrivateKey
	}
	sc.Suites, sc.ALPN = refSuites, cf.S.NextProtos
	if s.CfgP(1, 2) {
		sc.Groups = []int{29, 23, 24, 25, 256}
	}
	var did []string
	never := ""
	for n := 1 + s.FaultW(3, 2, 1); n > 0; n-- {
		switch s.FaultW(3, 3, 3, 2, 1, 1, 1) {
		case 0:
			sc.AnyMode, sc.Modes = true, [][]int{{0}, {1}}[s.Fault(2)]
			did = append(did, fmt.Sprintf("modes %v", sc.Modes))
		case 1:
			l := []string{"h2", "http/1.1", "other", "", strings.Repeat("p", 255), "h", "h22"}
			n := l[s.Fault(len(l))]
			old := sc.EditEE
			sc.EditEE = func(ee ref.Exts) (o ref.Exts) {
				if old != nil {
					ee = old(ee)
				}
				for _, e := range ee {
					if e.Type != ref.ExtALPN {
						o = append(o, e)
					}
				}
				return append(o, ref.Ext{Type: ref.ExtALPN, Data: ref.V16(ref.V8([]byte(n)))})
			}
			did = append(did, fmt.Sprintf("protocol %.10q", n))
		case 2:
			old := sc.EditEE
			sc.EditEE = func(ee ref.Exts) ref.Exts {
				if old != nil {
					ee = old(ee)
				}
				if _, ok := ee.Find(ref.ExtEarly); ok {
					return ee
				}
				return append(ee, ref.Ext{Type: ref.ExtEarly})
			}
			did = append(did, "early data")
		case 3:
			sc.AnySuite = []int{0x1301, 0x1302}[s.Fault(2)]
			did = append(did, fmt.Sprintf("suite %x", sc.AnySuite))
		case 4:
			v := []int{0x0303, 0x0302, 0x0305, 0x7f1c, 0x0300, 0}[s.Fault(6)]
			old := sc.EditSH
			sc.EditSH = func(sh *ref.ServerHello) {
				if old != nil {
					old(sh)
				}
				var o ref.Exts
				for _, e := range sh.Exts {
					if e.Type != ref.ExtVersions {
						o = append(o, e)
					} else if v != 0 {
						o = append(o, ref.Ext{Type: e.Type, Data: u16b(v)})
					}
				}
				sh.Exts = o
			}
			never = fmt.Sprintf("version %x", v)
			did = append(did, never)
		case 5:
			v := 1 + s.Fault(3)
			old := sc.EditSH
			sc.EditSH = func(sh *ref.ServerHello) {
				if old != nil {
					old(sh)
				}
				for i := range sh.Exts {
					if sh.Exts[i].Type == ref.ExtPSK {
						sh.Exts[i].Data = u16b(v)
						never = fmt.Sprintf("identity %d of 1", v)
					}
				}
			}
			did = append(did, "another identity")
		case 6:
			v := []int{0x0304, 0x0302, 0x0301, 0xfefd}[s.Fault(4)]
			old := sc.EditSH
			sc.EditSH = func(sh *ref.ServerHello) {
				if old != nil {
					old(sh)
				}
				sh.Version = v
			}
			never = fmt.Sprintf("legacy version %x", v)
			did = append(did, never)
		}
	}
	s.K.Faults["dictated value"] += len(did)
	var r *refEnd
	x := s.NewX("", 1, cf, true, s.quickPol())
	x.NoApp, x.Quiet, x.J = true, true, Judge{}
	if cf.C.AllowEarlyData {
		x.Early = s.earlyWrites(1000)
	}
	x.start(true, func(t net.Conn) foreign {
		r = s.newRef(t, nil, sc)
		return r
	})
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	s.Param("server chooses %s", strings.Join(did, ", "))
	s.NonTriv = true
	s.K.Probe(map[bool]string{true: "completed", false: "refused"}[x.M.Done])
	if !x.M.Done {
		return
	}
	if never != "" {
		s.Fail("value-not-allowed", "%s completed with %s", x.M.Name, never)
		return
	}
	cs := x.M.Conn.ConnectionState()
	if ch := r.c.Res.PeerHello; ch != nil {
		_, early := ch.Exts.Find(ref.ExtEarly)
		if cs.UsingEarlyData && !early {
			s.Fail("value-not-allowed", "%s reports early data that it did not offer", x.M.Name)
			return
		}
		if !hasInt(ch.Suites, int(cs.CipherSuite.Suite)) {
			s.Fail("value-not-allowed", "%s completed with suite %v, which it did not offer", x.M.Name, cs.CipherSuite.Suite)
			return
		}
	}
	s.allowedBy(x.M, r.c.Res.Group)
}

// demanding: a client that holds the right keys, and offers all kinds of
// things, meets a server whose configuration is narrow.
func demanding(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 60, Resume: 40, Early: 50, Auth: 20, NB: 50, Cookie: 20, Incompat: s.CfgP(1, 4)})
	cc := s.RefClient(cf)
	never := ""
	var did []string
	if s.CfgP(1, 2) {
		cc.Suites = [][]int{{0x1301, 0x1302}, {0x1302, 0x1301}, {0x1301}, {0x1302}}[s.Cfg(4)]
	}
	if s.CfgP(1, 2) {
		cc.Groups = [][]int{{29, 23, 24, 25, 256}, {25, 24, 23, 29}, {256}, {25}, {24, 256}}[s.Cfg(5)]
		cc.Shares = append([]int{}, cc.Groups...)
	}
	if s.CfgP(1, 2) {
		cc.Modes = [][]int{{0}, {1}, {0, 1}, {1, 0}, {7}, {7, 1}, {0, 7}}[s.Cfg(7)]
	}
	if s.CfgP(1, 3) {
		cc.ALPN = s.protos()
	}
	if len(cc.PSKs) > 0 && s.CfgP(1, 2) {
		cc.OfferEarly = true
	}
	for n := s.FaultW(2, 2, 1); n > 0; n-- {
		k := s.Fault(6)
		old := cc.EditCH
		edit := func(f func(ch *ref.ClientHello, second bool)) {
			cc.EditCH = func(ch *ref.ClientHello, second bool) {
				if old != nil {
					old(ch, second)
				}
				f(ch, second)
			}
		}
		set := func(ch *ref.ClientHello, t int, d []byte) bool {
			for i := range ch.Exts {
				if ch.Exts[i].Type == t {
					ch.Exts[i].Data = d
					return true
				}
			}
			return false
		}
		switch k {
		case 0:
			l := [][]int{{0x0303}, {0x0303, 0x0302}, {0x7f1c}, {0x0305}, {}, {0x0403}}[s.Fault(5)]
			never = fmt.Sprintf("versions %x", l)
			edit(func(ch *ref.ClientHello, _ bool) { set(ch, ref.ExtVersions, ref.V8(u16list(l))) })
		case 1:
			l := [][]byte{{1, 0}, {0, 1}, {1}, {}}[s.Fault(4)]
			never = fmt.Sprintf("compression %x", l)
			edit(func(ch *ref.ClientHello, _ bool) { ch.Comp = l })
		case 2:
			v := []int{0x0302, 0x0304, 0x0300}[s.Fault(3)]
			never = fmt.Sprintf("legacy version %x", v)
			edit(func(ch *ref.ClientHello, _ bool) { ch.Version = v })
		case 3:
			// a group named in the shares only: never used, unless
			// both ends would have
			edit(func(ch *ref.ClientHello, _ bool) { set(ch, ref.ExtGroups, ref.V16(u16list([]int{0x6a6a}))) })
		case 4:
			edit(func(ch *ref.ClientHello, second bool) {
				if second && len(cc.PSKs) > 0 {
					ch.Exts = append(ref.Exts{{Type: ref.ExtEarly}}, ch.Exts...)
				}
			})
		case 5:
			edit(func(ch *ref.ClientHello, second bool) {
				if len(cc.PSKs) == 0 {
					ch.Exts = append(ref.Exts{{Type: ref.ExtEarly}}, ch.Exts...)
				}
			})
		}
		did = append(did, fmt.Sprint(k))
	}
	s.K.Faults["demanded value"] += len(did)
	if never != "" {
		did = append(did, never)
	}
	var r *refEnd
	x := s.NewX("", 1, cf, false, s.quickPol())
	x.NoApp, x.Quiet, x.J = true, true, Judge{}
	x.start(false, func(t net.Conn) foreign {
		r = s.newRef(t, cc, nil)
		return r
	})
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	s.Param("client: suites %x groups %v modes %v early %v, %s", cc.Suites, cc.Groups, cc.Modes, cc.OfferEarly, strings.Join(did, ", "))
	s.NonTriv = true
	var e *ref.Err
	if errors.As(x.FErr, &e) && (e.Alert == ref.AlertIllegal || e.Alert == ref.AlertUnsupported) {
		s.Fail("value-not-offered", "%s answers with what was not offered: %v", x.M.Name, x.FErr)
		return
	}
	s.K.Probe(map[bool]string{true: "completed", false: "refused"}[x.M.Done])
	if !x.M.Done {
		return
	}
	if never != "" {
		s.Fail("value-not-allowed", "%s completed with %s", x.M.Name, never)
		return
	}
	cs := x.M.Conn.ConnectionState()
	if cs.UsingEarlyData && (!cc.OfferEarly || r.c.Res.Retried) {
		s.Fail("value-not-allowed", "%s reports early data; offered %v, retried %v", x.M.Name, cc.OfferEarly, r.c.Res.Retried)
		return
	}
	s.allowedBy(x.M, r.c.Res.Group)
}

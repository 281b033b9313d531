package engine

import (
	"fmt"
	"io"
	"net"
	"reflect"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

func init() {
	register("C15",
		Scenario{"crowd", 10, func(s *Sim) { crowd(s, false, false) }},
		Scenario{"crowd-tickets", 5, func(s *Sim) { crowd(s, false, true) }},
		Scenario{"crowd-dtls", 6, func(s *Sim) { crowd(s, true, false) }},
		Scenario{"crowd-dtls-tickets", 2, func(s *Sim) { crowd(s, true, true) }},
		Scenario{"listener", 3, listeners},
	)
}

// snap is a deep copy of what a configuration says.
type snap struct {
	v     map[string]interface{}
	names []string
	certs [][]byte
	psks  map[string]mint.PreSharedKey
}

func cloneValue(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Slice:
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(n, v)
		return n.Interface()
	case reflect.Func:
		return v.Pointer()
	}
	return v.Interface()
}

func snapshot(c *mint.Config) *snap {
	p := &snap{v: map[string]interface{}{}}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); f.PkgPath == "" {
			p.v[f.Name] = cloneValue(v.Field(i))
			p.names = append(p.names, f.Name)
		}
	}
	for _, x := range c.Certificates {
		for _, y := range x.Chain {
			p.certs = append(p.certs, append([]byte{}, y.Raw...))
		}
	}
	if st, ok := c.PSKs.(*Store); ok {
		p.psks = map[string]mint.PreSharedKey{}
		for k, x := range st.m {
			x.Identity, x.Key = append([]byte{}, x.Identity...), append([]byte{}, x.Key...)
			p.psks[k] = x
		}
	}
	return p
}

// defaults are what a field that says nothing means, as documented.
var defaults = map[string]interface{}{
	"CipherSuites":     []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384},
	"Groups":           []mint.NamedGroup{mint.P256, mint.P384, mint.FFDHE2048, mint.X25519},
	"SignatureSchemes": []mint.SignatureScheme{mint.RSA_PSS_SHA256, mint.RSA_PSS_SHA384, mint.RSA_PSS_SHA512, mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.ECDSA_P521_SHA512},
	"PSKModes":         []mint.PSKKeyExchangeMode{mint.PSKModeKE, mint.PSKModeDHEKE},
	"TicketLen":        16,
}

func isZero(v interface{}) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	return r.IsZero() || r.Kind() == reflect.Slice && r.Len() == 0
}

// differs names a field of now that does not mean what it meant in p.
func (p *snap) differs(now *snap) string {
	for _, f := range p.names {
		a, b := p.v[f], now.v[f]
		if reflect.DeepEqual(a, b) || isZero(a) && isZero(b) {
			continue
		}
		if isZero(a) {
			// said nothing: may have been filled in
			if d, ok := defaults[f]; ok && reflect.DeepEqual(d, b) {
				continue
			}
			if f == "PSKs" || f == "CookieProtector" {
				continue
			}
		}
		if isZero(b) && p.v[f] != nil {
			if d, ok := defaults[f]; ok && reflect.DeepEqual(d, a) {
				continue
			}
		}
		switch f {
		case "PSKs", "CookieProtector", "CookieHandler", "ExtensionHandler", "RootCAs", "Time", "Certificates", "VerifyPeerCertificate", "RecordLayer":
			return f
		}
		return fmt.Sprintf("%s: %v became %v", f, a, b)
	}
	if !reflect.DeepEqual(p.certs, now.certs) {
		return "contents of Certificates"
	}
	return ""
}

// keys compares the pre-shared keys that were there from the beginning.
func (p *snap) keys(now *snap, replaced string) string {
	for _, k := range sortedSnap(p.psks) {
		b, ok := now.psks[k]
		if k == replaced && ok {
			continue
		}
		if !ok {
			return fmt.Sprintf("key %q vanished", short([]byte(k)))
		}
		if !reflect.DeepEqual(p.psks[k], b) {
			return fmt.Sprintf("key %q changed", short([]byte(k)))
		}
	}
	return ""
}

func sortedSnap(m map[string]mint.PreSharedKey) []string {
	var x []string
	for k := range m {
		x = append(x, k)
	}
	return sortedStrings(x)
}

// bare is a configuration of its own that says the same, made without Clone.
func bare(c *mint.Config) *mint.Config {
	n := &mint.Config{}
	v, w := reflect.ValueOf(c).Elem(), reflect.ValueOf(n).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).PkgPath == "" {
			w.Field(i).Set(v.Field(i))
			if v.Field(i).Kind() == reflect.Slice {
				w.Field(i).Set(reflect.ValueOf(cloneValue(v.Field(i))))
			}
		}
	}
	return n
}

// member is one connection of a crowd.
type member struct {
	kind string
	cf   *Conf
	x    *Session
	d    *DSession
	own  bool
	c    *mint.Config // as it was
}

// layers is an application's record layer factory.
type layers struct{ made int }

func (l *layers) NewLayer(c io.ReadWriter, d mint.Direction) mint.RecordLayer {
	l.made++
	return mint.NewRecordLayerTLS(c, d)
}

// crowd runs connections that share their configurations.
func crowd(s *Sim, dtls, tickets bool) {
	s.Sched()
	g := Gen{DTLS: dtls, PSK: 40, Resume: 30, Early: 35, Auth: 25, NB: 50, Cookie: 30, Slow: s.CfgP(1, 6), Default: 50}
	if dtls {
		g.NB = 100
	}
	if tickets {
		g.Tickets, g.Early = 100, 10
	}
	base := s.GenConf(g)
	if base.C.NonBlocking == base.S.NonBlocking && s.CfgP(1, 5) {
		// one configuration for both roles
		m := bare(base.S)
		m.ServerName, m.RootCAs = base.C.ServerName, base.C.RootCAs
		m.AllowEarlyData = base.C.AllowEarlyData && base.S.AllowEarlyData
		m.PSKModes = base.C.PSKModes
		for k, v := range base.CStore.m {
			base.SStore.m[k] = v
		}
		if e := Predict(m, m); e.OK {
			base.C, base.S, base.CStore = m, m, base.SStore
			base.E = e
			s.Param("one configuration for both roles: suite=%v psk=%v alpn=%q early=%v", e.Suite, e.PSK, e.ALPN, e.Early)
			s.K.Probe("both-roles")
		}
	}
	for _, c := range []*mint.Config{base.C, base.S} {
		if !dtls && s.CfgP(1, 5) {
			c.RecordLayer = &layers{}
		}
	}
	shared := []*mint.Config{base.C, base.S}
	if base.C == base.S {
		shared = shared[:1]
	}
	var before []*snap
	for _, c := range shared {
		before = append(before, snapshot(c))
	}
	pristineC, pristineS := bare(base.C), bare(base.S)
	// keys belong to one connection
	keys := map[string]string{}
	s.K.OnSeal = func(e simrt.Seal) {
		if len(e.Node) < 3 || e.Node[1] != '.' {
			return
		}
		k := string(e.Key)
		if o, ok := keys[k]; ok && o != e.Node {
			s.Fail("shared-key", "connections %s and %s protect records with the same key", o, e.Node)
		}
		keys[k] = e.Node
	}
	n := 2 + s.CfgW(3, 3, 2, 1, 1)
	if dtls {
		n = min(n, 4)
	}
	var ms []*member
	start := newNode("starter")
	for i := 0; i < n; i++ {
		m := &member{}
		ms = append(ms, m)
		m.kind = []string{"honest", "own", "incompatible", "hostile", "attacked", "aborted", "silent"}[s.CfgW(9, 3, 1, 1, 1, 1, 1)]
		if i == 0 {
			m.kind = "honest"
		}
		if dtls && m.kind == "hostile" {
			m.kind = "attacked"
		}
		m.cf = &Conf{C: base.C, S: base.S, CStore: base.CStore, SStore: base.SStore, PSK: base.PSK, Cookies: base.Cookies}
		m.c = pristineC
		switch m.kind {
		case "own", "incompatible":
			// a client of its own that meets the shared server
			c := bare(pristineC)
			st := base.CStore.Copy()
			c.PSKs, m.cf.CStore = st, st
			for try := 0; ; try++ {
				o := s.genConf(Gen{DTLS: dtls, Incompat: m.kind == "incompatible", Auth: 30})
				c.ServerName, c.CipherSuites, c.Groups, c.SignatureSchemes, c.NextProtos, c.Certificates = o.C.ServerName, o.C.CipherSuites, o.C.Groups, o.C.SignatureSchemes, o.C.NextProtos, o.C.Certificates
				if m.kind == "incompatible" && s.CfgP(1, 2) {
					c.ServerName = "nobody.example.com"
				}
				if s.CfgP(1, 2) {
					st.m = map[string]mint.PreSharedKey{}
				}
				if ok := Predict(c, pristineS).OK; ok == (m.kind == "own") {
					break
				}
				if try > 15 {
					c = bare(pristineC)
					m.kind = "own"
					break
				}
			}
			m.cf.C, m.c, m.own = c, bare(c), true
		}
		m.cf.E = Predict(m.c, pristineS)
		if tickets {
			m.cf.E.EarlyOffer = false
		}
		name := fmt.Sprintf("%d.", i)
		s.Param("%s %s: expect ok=%v (%s) suite=%v psk=%v alpn=%q early=%v", name, m.kind, m.cf.E.OK, m.cf.E.Why, m.cf.E.Suite, m.cf.E.PSK, m.cf.E.ALPN, m.cf.E.Early)
		s.K.Probe(m.kind)
		at := s.Dur("cfg", 300*time.Millisecond)
		cloneC, cloneS := s.CfgP(1, 4), s.CfgP(1, 4)
		tag := uint32(i + 1)
		m.prepare(s, name, tag, dtls, tickets)
		s.K.Go(name+"start", start, func() {
			s.K.Sleep(at)
			if cloneC && !m.own {
				m.cf.C = m.cf.C.Clone()
			}
			if cloneS {
				m.cf.S = m.cf.S.Clone()
			}
			m.start(s, name, tag)
		})
	}
	for i := range shared {
		i := i
		s.K.Go("cloner", start, func() {
			for n := s.Op(6); n > 0; n-- {
				s.K.Sleep(s.Dur("op", 400*time.Millisecond))
				if d := before[i].differs(snapshot(shared[i].Clone())); d != "" {
					s.Fail("clone-differs", "a copy of a configuration in use differs from it: %s", d)
					return
				}
				s.K.Probe("cloned")
			}
		})
	}
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	for i, m := range ms {
		switch m.kind {
		case "honest", "own", "incompatible":
			m.finish(s, fmt.Sprintf("%d.", i), tickets)
		}
		if s.Failed() {
			return
		}
	}
	for i, c := range shared {
		now := snapshot(c)
		if d := before[i].differs(now); d != "" {
			s.Fail("config-changed", "a configuration no longer means what it meant before it was used: %s", d)
			return
		}
		replaced := ""
		if tickets {
			replaced = base.C.ServerName
		}
		if d := before[i].keys(now, replaced); d != "" {
			s.Fail("store-changed", "a store of pre-shared keys was changed by using it: %s", d)
			return
		}
		if d := before[i].differs(snapshot(c.Clone())); d != "" {
			s.Fail("clone-differs", "a copy of a used configuration differs from it: %s", d)
			return
		}
	}
	s.NonTriv = true
}

func (m *member) prepare(s *Sim, name string, tag uint32, dtls, tickets bool) {
	e := m.cf.E
	if dtls {
		x := s.NewDSession(name, tag, m.cf, s.quickDPol())
		m.d = x
		x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(3, 10), s.dgramPlan(3, 10)
		x.NoView = tickets
		if e.EarlyOffer && s.CfgP(1, 2) {
			x.Early = s.earlyWrites(300)
		}
		x.Hostile = m.kind != "honest" && m.kind != "own" && m.kind != "incompatible"
		if m.kind == "attacked" {
			x.Pol.Loss, x.Pol.Dup = 300, 100
		}
		return
	}
	pol := s.LinkPol()
	if tickets || e.PSK && m.cf.PSK != nil && m.cf.PSK.IsResumption {
		pol = s.quickPol()
	}
	x := s.NewSession(name, tag, m.cf, pol, Judge{Stream: true, Hs: true, View: !tickets, KU: true})
	m.x = x
	x.CPlan, x.SPlan = s.GenApp(AppGen{MaxOps: 4, KU: 15, Sleep: 100 * time.Millisecond}), s.GenApp(AppGen{MaxOps: 4, KU: 15, Sleep: 100 * time.Millisecond})
	if e.EarlyOffer && s.CfgP(1, 2) {
		x.Early = s.earlyWrites(1500)
	}
	switch m.kind {
	case "attacked":
		x.Quiet, x.J = true, Judge{}
		s.Attack(x, 3)
	case "aborted", "silent":
		x.Quiet, x.J = true, Judge{}
	}
}

func (m *member) start(s *Sim, name string, tag uint32) {
	switch {
	case m.kind == "silent":
		// connects and says nothing
		if m.d != nil {
			return
		}
		p := NewPeer(s, name+"s", m.cf.S, m.x.ST, false)
		p.Go("hs", func() { p.Handshake() })
	case m.kind == "hostile":
		cc := s.RefClient(m.cf)
		cc.OfferEarly = false
		s.K.Probe("hostile")
		x := s.NewX(name, tag, m.cf, false, s.quickPol())
		x.NoApp, x.Quiet, x.J = true, true, Judge{}
		ev := s.evilClient(cc)
		x.start(false, func(t net.Conn) foreign {
			r := s.newRef(t, cc, nil)
			r.c.Hook = ev
			return r
		})
	case m.d != nil:
		m.d.Start()
		if m.kind == "attacked" {
			m.d.intrude(nil, 400*time.Millisecond)
		}
	default:
		m.x.Start()
		if m.kind == "aborted" {
			s.K.At(s.Dur("fault", 400*time.Millisecond), "abort", func() {
				s.K.Fault("abort")
				m.x.CT.Close()
				if s.FaultP(1, 2) {
					m.x.ST.Close()
				}
			})
		}
	}
	if m.kind == "aborted" && m.d != nil {
		s.K.At(s.Dur("fault", 400*time.Millisecond), "abort", func() {
			s.K.Fault("abort")
			m.d.CT.Close()
			m.d.ST.Close()
		})
	}
}

// evilClient spoils one message of a client.
func (s *Sim) evilClient(cc *ref.ClientConfig) func(c *ref.Conn, name string, msg []byte) [][]byte {
	at, kind, pos := s.Fault(3), s.Fault(4), s.Fault(1<<16)
	n := 0
	return func(c *ref.Conn, name string, msg []byte) [][]byte {
		n++
		if n-1 != at {
			return [][]byte{msg}
		}
		s.K.Fault("evil-" + name)
		switch kind {
		case 0:
			b := append([]byte{}, msg...)
			b[pos%len(b)] ^= byte(1 + pos%255)
			return [][]byte{b}
		case 1:
			return nil
		case 2:
			return [][]byte{msg, msg}
		}
		return [][]byte{msg[:pos%len(msg)]}
	}
}

func (m *member) finish(s *Sim, name string, tickets bool) {
	var c, v *Peer
	if m.d != nil {
		m.d.FinishHs()
		c, v = m.d.C, m.d.S
	} else {
		m.x.Finish()
		c, v = m.x.C, m.x.S
	}
	if s.Failed() || !m.cf.E.OK {
		return
	}
	if m.d != nil {
		for _, p := range []*Peer{c, v} {
			for i, w := range p.Msgs {
				early := p.Client && i < len(m.d.early)
				if n := p.other.countMsg(w); n != 1 && !early && p.Done && p.other.Done {
					s.Fail("message-count", "%s read message %d of %s %d times on a network without faults", p.other.Name, i, p.Name, n)
					return
				}
			}
		}
	}
	if !tickets {
		return
	}
	// the connection may resume one of the others
	e := m.cf.E
	a, b := c.Conn.ConnectionState(), v.Conn.ConnectionState()
	if a.UsingPSK && !e.PSK {
		s.K.Probe("resumed")
		e.PSK, e.Cert, e.ClientCert = true, nil, nil
	}
	e.Early = a.UsingEarlyData
	if !s.CheckView(c, e) || !s.CheckView(v, e) {
		return
	}
	if m.x != nil {
		m.x.agree()
	} else if a.UsingEarlyData != b.UsingEarlyData {
		s.Fail("disagree", "%s early data: client %v, server %v", name, a.UsingEarlyData, b.UsingEarlyData)
	}
}

// quickDPol is a datagram network without faults.
func (s *Sim) quickDPol() *DPolicy {
	return &DPolicy{MinLat: []time.Duration{time.Millisecond, 20 * time.Millisecond}[s.CfgW(3, 1)]}
}

// hall is a listener of the simulated network.
type hall struct {
	s      *Sim
	q      []*Session
	closed bool
	got    map[*simrt.Task]*Session
}

func (h *hall) Accept() (net.Conn, error) {
	h.s.K.Block("accept", func() bool { return len(h.q) > 0 || h.closed })
	if h.closed || len(h.q) == 0 {
		return nil, net.ErrClosed
	}
	x := h.q[0]
	h.q = h.q[1:]
	h.got[simrt.Cur()] = x
	return x.ST, nil
}
func (h *hall) Close() error   { h.closed = true; return nil }
func (h *hall) Addr() net.Addr { return &net.TCPAddr{} }

// listeners serves clients through mint's Listener.
func listeners(s *Sim) {
	s.Sched()
	base := s.GenConf(Gen{PSK: 40, Early: 30, Auth: 25, NB: 50, SrvNB: -1, Cookie: 25})
	before := snapshot(base.S)
	pristine := bare(base.S)
	h := &hall{s: s, got: map[*simrt.Task]*Session{}}
	l, err := mint.NewListener(h, base.S)
	if err != nil {
		s.Fail("listener", "NewListener: %v", err)
		return
	}
	n := 1 + s.CfgW(2, 3, 2, 1)
	node := newNode("listener")
	var ms []*member
	served := 0
	for i := 0; i < n; i++ {
		m := &member{kind: []string{"honest", "incompatible", "aborted"}[s.CfgW(6, 1, 1)]}
		ms = append(ms, m)
		c := bare(base.C)
		if m.kind == "incompatible" {
			c.ServerName = "nobody.example.com"
			c.PSKs = NewStore(s)
		}
		m.cf = &Conf{C: c, S: base.S, CStore: base.CStore, SStore: base.SStore, PSK: base.PSK}
		m.cf.E = Predict(c, pristine)
		name := fmt.Sprintf("%d.", i)
		s.Param("%s %s: expect ok=%v (%s)", name, m.kind, m.cf.E.OK, m.cf.E.Why)
		m.prepare(s, name, uint32(i+1), false, false)
		x := m.x
		x.C = NewPeer(s, name+"c", c, x.CT, true)
		x.S = NewPeer(s, name+"s", base.S, x.ST, false)
		x.C.other, x.S.other = x.S, x.C
		x.C.patID, x.S.patID = x.tag*2+1, x.tag*2+2
		at := s.Dur("cfg", 300*time.Millisecond)
		abort := time.Duration(-1)
		if m.kind == "aborted" {
			abort = s.Dur("fault", 400*time.Millisecond)
		}
		x.C.Go("hs", func() {
			s.K.Sleep(at)
			h.q = append(h.q, x)
			if abort >= 0 {
				s.K.At(abort, "abort", func() {
					s.K.Fault("abort")
					x.CT.Close()
				})
			}
			x.client()
		})
	}
	for a := 1 + s.CfgW(2, 1); a > 0; a-- {
		s.K.Go("acceptor", node, func() {
			for !s.Failed() {
				c, err := l.Accept()
				x := h.got[simrt.Cur()]
				if x == nil {
					return
				}
				delete(h.got, simrt.Cur())
				served++
				p := x.S
				mc, ok := c.(*mint.Conn)
				if !ok || mc == nil {
					s.Fail("accept-nothing", "Accept -> %T, %v", c, err)
					return
				}
				p.Conn = mc
				p.HsRet = true
				p.Done = err == nil && p.Connected()
				s.K.Logf("accept %s -> %v done=%v", p.Name, err, p.Done)
				if a, ok := err.(mint.Alert); ok {
					p.HsErr = a
				}
				if err == nil && !p.Connected() {
					s.Fail("accept-unfinished", "Accept reports success but the handshake is in state %s", p.stateName())
					return
				}
				p.Go("app", func() { x.afterHs(p) })
			}
		})
	}
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	if served != n {
		s.Fail("accept-stuck", "%d of %d connections were accepted; %s", served, n, s.K.Where())
		return
	}
	for i, m := range ms {
		if m.kind != "aborted" {
			m.finish(s, fmt.Sprintf("%d.", i), false)
		}
		if s.Failed() {
			return
		}
	}
	if d := before.differs(snapshot(base.S)); d != "" {
		s.Fail("config-changed", "a configuration no longer means what it meant before it was used: %s", d)
		return
	}
	s.NonTriv = true
}

package engine

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"net"
	"strings"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

func init() {
	register("C12",
		Scenario{"honest", 5, func(s *Sim) { cookiesHonest(s, false) }},
		Scenario{"honest-dtls", 5, func(s *Sim) { cookiesHonest(s, true) }},
		Scenario{"hostile-client", 8, cookiesHostile},
		Scenario{"tampered", 3, cookiesTampered},
		Scenario{"tampered-dtls", 4, cookiesTamperedDTLS},
		Scenario{"odd-retry", 5, oddRetry},
	)
}

// Gate watches the cookies of one server configuration: what was issued, what
// came back to whom, and that nothing but retries is sent before that.
type Gate struct {
	s      *Sim
	inner  mint.CookieProtector
	Issued map[string][]byte // token -> its contents
	By     map[string]string // token -> who issued it
	Last   map[string]string // server -> the token last accepted
	open   map[string]bool
	ends   map[string]func() [][]byte // server -> handshake records and alerts it sent
	app    *cookieApp
	noNew  bool // NewToken fails
	calls  int
}

func node() string {
	if t := simrt.Cur(); t != nil && t.Node != nil {
		return t.Node.Name
	}
	return ""
}

func (g *Gate) NewToken(b []byte) ([]byte, error) {
	if g.noNew {
		return nil, fmt.Errorf("no more cookies")
	}
	t, err := g.inner.NewToken(b)
	if err == nil {
		g.Issued[string(t)] = append([]byte{}, b...)
		g.By[string(t)] = node()
	}
	return t, err
}

func (g *Gate) DecodeToken(t []byte) ([]byte, error) {
	b, err := g.inner.DecodeToken(t)
	g.calls++
	w, ok := g.Issued[string(t)]
	if err == nil && !ok {
		g.s.Fail("cookie-forged", "%s took a cookie of %d bytes that was never issued", node(), len(t))
	} else if err == nil && !bytes.Equal(w, b) {
		g.s.Fail("cookie-changed", "a cookie decodes to something else than was put in it")
	}
	if err == nil && ok {
		g.Last[node()] = string(t)
		if g.app == nil {
			g.pass(node())
		}
	}
	return b, err
}

func (g *Gate) pass(n string) {
	if !g.open[n] {
		g.wire(n)
		g.open[n] = true
	}
}

// cookieApp is an application's cookie handler.
type cookieApp struct {
	g       *Gate
	mode    int // 0 address, 1 none wanted, 2 error, 3 empty
	refuse  bool
	given   map[string][]byte
	checked int
}

func (a *cookieApp) Generate(c *mint.Conn) ([]byte, error) {
	switch a.mode {
	case 1:
		return nil, nil
	case 2:
		return nil, fmt.Errorf("no cookie")
	case 3:
		a.given[node()] = []byte{}
		return []byte{}, nil
	}
	b := []byte("address of " + node())
	a.given[node()] = b
	return b, nil
}

func (a *cookieApp) Validate(c *mint.Conn, b []byte) bool {
	a.checked++
	n := node()
	known := false
	for _, v := range a.given {
		known = known || bytes.Equal(v, b)
	}
	if !known {
		a.g.s.Fail("app-cookie-wrong", "%s asks the application about a cookie it did not make (%d bytes)", n, len(b))
	}
	want := []byte("address of " + n)
	if a.mode == 3 {
		want = nil
	}
	if a.refuse || !bytes.Equal(want, b) {
		return false
	}
	a.g.pass(n)
	return true
}

// NewGate puts the watch into a server's configuration.
func (s *Sim) NewGate(v *mint.Config, handler bool) *Gate {
	g := &Gate{s: s, Issued: map[string][]byte{}, By: map[string]string{}, Last: map[string]string{}, open: map[string]bool{}, ends: map[string]func() [][]byte{}}
	g.inner = v.CookieProtector
	if g.inner == nil {
		g.fresh()
	}
	v.CookieProtector = g
	if handler {
		g.app = &cookieApp{g: g, given: map[string][]byte{}}
		v.CookieHandler = g.app
	}
	s.K.OnSeal = func(x simrt.Seal) {
		record := (len(x.AAD) == 5 || len(x.AAD) == 13) && x.AAD[0] == 23
		if _, ours := g.ends[x.Node]; ours && record && !g.open[x.Node] {
			s.Fail("sent-before-cookie", "%s encrypts a record before it got its cookie back", x.Node)
		}
	}
	return g
}

func (g *Gate) fresh() {
	p, err := mint.NewDefaultCookieProtector()
	if err != nil {
		panic(err)
	}
	g.inner = p
}

// needed: does this server demand cookies at all
func (g *Gate) needed() bool { return g.app == nil || g.app.mode != 1 }

// wire judges what a server has sent so far.
func (g *Gate) wire(n string) {
	f := g.ends[n]
	if f == nil {
		return
	}
	for i, r := range f() {
		switch {
		case len(r) == 0 || r[0] == 21:
		case r[0] == 22 && isHRR(r):
		default:
			g.s.Fail("sent-before-cookie", "%s sends something other than a retry (record %d, %s) before it got its cookie back", n, i, short(r))
			return
		}
	}
}

// Finish judges a server after the run.
func (g *Gate) Finish(p *Peer) bool {
	if g.s.Failed() || !g.needed() {
		return !g.s.Failed()
	}
	if !g.open[p.Name] {
		g.wire(p.Name)
		if p.Done && !g.s.Failed() {
			g.s.Fail("completed-without-cookie", "%s completed although no valid cookie came back", p.Name)
		}
		switch st := p.Conn.ConnectionState().HandshakeState; st {
		case mint.StateInit, mint.StateServerStart:
		default:
			g.s.Fail("advanced-without-cookie", "%s is in state %v although no valid cookie came back", p.Name, st)
		}
	}
	return !g.s.Failed()
}

// tls registers a stream server.
func (g *Gate) tls(name string, h *Half) {
	if g.needed() {
		g.ends[name] = func() [][]byte { return h.Wire }
	}
}

// dtls registers a datagram server.
func (g *Gate) dtls(name string, h *DHalf) {
	if !g.needed() {
		return
	}
	g.ends[name] = func() [][]byte {
		var out [][]byte
		for _, d := range h.Sent {
			for len(d) >= 13 {
				n := 13 + int(d[11])<<8 + int(d[12])
				if n > len(d) {
					n = len(d)
				}
				r := d[:n]
				d = d[n:]
				// acknowledgements are no answer; fragments lose their
				// headers, so that a record looks like one of TLS
				if r[0] == 26 {
					continue
				}
				x := append([]byte{r[0], 3, 3, 0, 0}, r[13:]...)
				if r[0] == 22 && len(r) >= 25 {
					x = append(append([]byte{r[0], 3, 3, 0, 0}, r[13:17]...), r[25:]...)
					if r[13+6]|r[13+7]|r[13+8] != 0 && isRetry(out) {
						continue // a later fragment
					}
				}
				out = append(out, x)
			}
			if len(d) > 0 {
				out = append(out, d)
			}
		}
		return out
	}
}

func isRetry(out [][]byte) bool { return len(out) > 0 && isHRR(out[len(out)-1]) }

// cookiesHonest: honest clients complete although cookies are demanded, with
// the server free to forget everything between the two hellos.
func cookiesHonest(s *Sim, dtls bool) {
	s.Sched()
	nb := 50
	if dtls {
		nb = 100
	}
	cf := s.GenConf(Gen{DTLS: dtls, PSK: 50, Resume: 50, Early: 40, Auth: 25, NB: nb, Tickets: 20, Cookie: 100, BigCerts: s.CfgP(1, 8)})
	g := s.NewGate(cf.S, s.CfgP(1, 2))
	if g.app != nil {
		g.app.mode = []int{0, 1, 3}[s.CfgW(4, 1, 1)]
	}
	if !g.needed() {
		cf.E.Cookie = false
		cf.E.Early = cf.E.EarlyOffer && cf.E.PSK && cf.S.AllowEarlyData
	} else {
		cf.E.Cookie, cf.E.Early = true, false
	}
	if g.app != nil {
		s.Param("application cookies of kind %d", g.app.mode)
	}
	fresh := cf.S.NonBlocking && s.CfgP(1, 2) && (dtls || !cf.E.EarlyOffer)
	forget := func(p *Peer) {
		if fresh {
			s.K.Probe("fresh-conn")
			p.Conn = mint.NewConn(p.Tr, p.Cfg, false)
		}
	}
	n := 1 + s.CfgW(3, 1, 1)
	if cf.PSK != nil || cf.S.SendSessionTickets {
		n = 1
	}
	var done []func() bool
	lossy := dtls && s.CfgP(1, 2)
	if lossy {
		s.FaultEnd = s.Dur("fault", 3*time.Second)
	}
	for i := 0; i < n; i++ {
		name := ""
		if n > 1 {
			name = fmt.Sprintf("%d.", i)
		}
		if dtls {
			x := s.NewDSession(name, uint32(i+1), cf, s.DPol(lossy))
			x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(2, 10), s.dgramPlan(2, 10)
			if cf.E.EarlyOffer {
				x.Early = s.earlyWrites(600)
			}
			g.dtls(name+"s", x.ST.Out)
			x.Start()
			x.S.OnRetry = forget
			done = append(done, func() bool { x.FinishHs(); return g.Finish(x.S) && g.want(x.S) })
			continue
		}
		x := s.NewSession(name, uint32(i+1), cf, s.quickPol(), Judge{Stream: true, Hs: true, View: true})
		x.CPlan, x.SPlan = s.GenApp(AppGen{MaxOps: 3, Sleep: time.Second}), s.GenApp(AppGen{MaxOps: 3, Sleep: time.Second})
		if cf.E.EarlyOffer {
			x.Early = s.earlyWrites(3000)
		}
		g.tls(name+"s", x.ST.Out)
		x.Start()
		x.S.OnRetry = forget
		done = append(done, func() bool { x.Finish(); return g.Finish(x.S) && g.want(x.S) })
	}
	s.K.Run(s.Failed)
	for _, f := range done {
		if !f() {
			return
		}
	}
	s.NonTriv = g.needed()
}

// want: a server that completed did get its cookie.
func (g *Gate) want(p *Peer) bool {
	if p.Done && g.needed() && g.Last[p.Name] == "" {
		g.s.Fail("completed-without-cookie", "%s completed without a cookie", p.Name)
	}
	return !g.s.Failed()
}

// cookiesHostile: a client that knows the protocol returns the wrong cookie,
// or the right one in the wrong place.
func cookiesHostile(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 45, Resume: 50, Early: 30, Auth: 20, NB: 50, Tickets: 20, Cookie: 100})
	g := s.NewGate(cf.S, s.CfgP(1, 2))
	var stolen []byte
	if s.CfgP(1, 2) {
		// another client's cookie, which the server really issued
		cc := s.RefClient(cf)
		x := s.NewX("0", 1, cf, false, &LinkPolicy{})
		x.NoApp, x.Quiet, x.J = true, true, Judge{}
		g.tls("0s", x.ST.Out)
		x.start(false, func(t net.Conn) foreign { return s.newRef(t, cc, nil) })
		s.K.Run(s.Failed)
		if s.Failed() || s.K.Panicked() != nil {
			return
		}
		for _, t := range sortedKeys(g.Issued) {
			stolen = []byte(t)
		}
		x.closeAll()
	}
	cc := s.RefClient(cf)
	if cc.OfferEarly {
		cc.Early = s.earlyWrites(1000)
	}
	what, first := "nothing", s.FaultP(1, 5)
	at, kind := s.Fault(400), s.FaultW(2, 4, 2, 2, 2, 3, 2, 2, 2, 1, 2)
	refuse := false
	edit := func(ck []byte) []byte {
		switch kind {
		case 1:
			what = "flipped bit"
			b := append([]byte{}, ck...)
			if len(b) > 0 {
				b[at%len(b)] ^= byte(1 << (at % 8))
			}
			return b
		case 2:
			what = "truncated"
			return ck[:at%max(len(ck), 1)]
		case 3:
			what = "extended"
			return append(append([]byte{}, ck...), Pattern(9, 0, 1+at%40)...)
		case 4:
			what = "invented"
			return Pattern(10, at, 1+at%200)
		case 5:
			if stolen == nil {
				return ck
			}
			what = "another client's"
			return stolen
		case 6:
			what = "other server's"
			p, _ := mint.NewDefaultCookieProtector()
			b, _ := p.NewToken(append([]byte{0x13, 1, 0, 32}, Pattern(11, 0, 34)...))
			return b
		}
		return ck
	}
	switch kind {
	case 7:
		what = "server forgot its secret"
	case 8:
		what, refuse = "application refuses", g.app != nil
	case 9:
		what = "server cannot make cookies"
		g.noNew = s.FaultP(1, 2)
		if g.app != nil && !g.noNew {
			g.app.mode = 2
		}
	}
	if g.app != nil {
		g.app.refuse = refuse
	}
	cc.EditCH = func(ch *ref.ClientHello, second bool) {
		if kind == 7 && second {
			g.fresh()
		}
		if second == first {
			return
		}
		if !second && kind >= 1 && kind <= 6 {
			what = "unasked "
			ck := edit(Pattern(12, 0, 60))
			ch.Exts = append(ref.Exts{{Type: ref.ExtCookie, Data: ref.V16(ck)}}, ch.Exts...)
			return
		}
		for i := range ch.Exts {
			if ch.Exts[i].Type == ref.ExtCookie && len(ch.Exts[i].Data) > 2 {
				if kind == 10 {
					what = "no cookie"
					ch.Exts = append(ch.Exts[:i:i], ch.Exts[i+1:]...)
					break
				}
				ch.Exts[i].Data = ref.V16(edit(ch.Exts[i].Data[2:]))
			}
		}
	}
	x := s.NewX("", 2, cf, false, s.quickPol())
	x.NoApp, x.Quiet, x.J = true, true, Judge{}
	g.tls("s", x.ST.Out)
	var r *refEnd
	x.start(false, func(t net.Conn) foreign {
		r = s.newRef(t, cc, nil)
		return r
	})
	s.K.Run(s.Failed)
	s.Param("cookie: %s", what)
	s.K.Faults["cookie "+what]++
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	g.Finish(x.M)
	if s.Failed() {
		return
	}
	s.NonTriv = true
	if !x.M.Done {
		s.K.Probe("refused")
		if what == "nothing" && cf.E.OK && !first {
			s.Fail("handshake-broken", "an honest client does not complete (%s; %v)", x.M.status(), x.FErr)
		}
		return
	}
	s.K.Probe("completed")
	// the cookie says which hello the client sent first
	if !bytes.Contains(g.Issued[g.Last["s"]], sum256(r.c.FirstSent())) && !bytes.Contains(g.Issued[g.Last["s"]], sum384(r.c.FirstSent())) {
		s.Fail("cookie-of-another", "s completed with a cookie that was issued for another first hello (%s)", what)
	}
}

func sum256(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
func sum384(b []byte) []byte { h := sha512.Sum384(b); return h[:] }

// cookiesTampered: the attacker in the path has no keys.
func cookiesTampered(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{Incompat: s.CfgP(1, 4), PSK: 45, Resume: 50, Early: 30, Auth: 20, NB: 50, Tickets: 20, Cookie: 100})
	g := s.NewGate(cf.S, s.CfgP(1, 2))
	x := s.NewSession("", 1, cf, s.quickPol(), Judge{})
	x.Quiet, x.NoApp = true, true
	g.tls("s", x.ST.Out)
	s.Attack(x, 1+s.Fault(4))
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	g.Finish(x.S)
	s.NonTriv = true
}

// cookiesTamperedDTLS: datagrams of several clients, damaged and mixed, reach
// servers that share their cookie secret.
func cookiesTamperedDTLS(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 30, Resume: 50, Early: 30, Auth: 20, NB: 100, Cookie: 100})
	g := s.NewGate(cf.S, s.CfgP(1, 2))
	n := 1 + s.CfgW(2, 2, 1)
	if cf.PSK != nil {
		n = 1
	}
	fresh := s.CfgP(1, 2)
	var xs []*DSession
	s.FaultEnd = 10 * time.Second
	var hellos [][]byte
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%d.", i)
		x := s.NewDSession(name, uint32(i+1), cf, &DPolicy{MinLat: 5 * time.Millisecond})
		x.Hostile, x.NoApp = true, true
		g.dtls(name+"s", x.ST.Out)
		h := x.CT.Out
		left := 1 + s.Fault(4)
		h.Tap = func(idx int, p []byte) bool {
			clear := len(p) > 40 && p[0] == 22 && p[3]|p[4] == 0
			if clear {
				hellos = append(hellos, p)
			}
			if left == 0 || !s.FaultP(1, 3) || !clear {
				return false
			}
			left--
			q := append([]byte{}, p...)
			keep := s.FaultP(1, 3)
			switch s.FaultW(4, 2, 2, 2) {
			case 0: // inside the cookie, if there is one
				at := 13 + 12 + s.Fault(len(q)-25)
				for _, t := range sortedKeys(g.Issued) {
					if k := bytes.Index(q, []byte(t)); k >= 0 {
						at = k + s.Fault(len(t))
						s.K.Fault("cookie-flipped")
					}
				}
				q[at] ^= byte(1 << s.Fault(8))
				s.K.Fault("flipped-bit")
			case 1: // another client's hello
				if len(hellos) > 0 {
					q = hellos[s.Fault(len(hellos))]
					s.K.Fault("foreign-hello")
				}
			case 2: // another client's cookie
				var ts []string
				for _, t := range sortedKeys(g.Issued) {
					ts = append(ts, t)
				}
				for _, t := range ts {
					u := ts[s.Fault(len(ts))]
					if k := bytes.Index(q, []byte(t)); k >= 0 && len(t) == len(u) {
						copy(q[k:], u)
						s.K.Fault("foreign-cookie")
					}
				}
			case 3:
				q = q[:13+s.Fault(len(q)-13)]
				s.K.Fault("truncated")
			}
			h.Deliver(q, 5*time.Millisecond, false)
			return !keep
		}
		x.Start()
		if fresh {
			x.S.OnRetry = func(p *Peer) { p.Conn = mint.NewConn(p.Tr, p.Cfg, false) }
		}
		xs = append(xs, x)
	}
	s.K.Run(s.Failed)
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	for _, x := range xs {
		if !g.Finish(x.S) {
			return
		}
		if x.C.Done && x.S.Done {
			s.K.Probe("completed")
		}
	}
	s.NonTriv = true
}

// oddRetry: a mint client meets a server whose retry is not in order.
func oddRetry(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 45, Resume: 50, Early: 30, Auth: 20, NB: 50, Cookie: 100})
	sc := s.RefServer(cf)
	if cf.E.PSK {
		sc.Suites = refSuites
		if !cf.E.DH {
			sc.Modes = []int{0}
		}
	}
	x := s.NewX("", 1, cf, true, s.quickPol())
	x.NoApp, x.Quiet, x.J = true, true, Judge{}
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(3000)
	}
	var did []string
	hellos := 2 // the client may send
	var hrr []byte
	second := false
	switch s.FaultW(1, 4, 2, 2, 2, 2, 2, 1) {
	case 0:
	case 1:
		did, second = append(did, "second retry"), true
	case 2:
		did = append(did, "suite of the retry changed")
		sc.PSKs = nil
		sc.EditHRR = func(sh *ref.ServerHello) { sc.HRRSuite = sh.Suite ^ 3 } // the other suite
	case 3:
		did, hellos = append(did, "suite that was not offered"), 1
		v := []int{0x1303, 0x1304, 0xc02f, 0}[s.Fault(4)]
		sc.EditHRR = func(sh *ref.ServerHello) { sh.Suite = v }
	case 4:
		did, hellos = append(did, "other version"), 1
		v := [][]byte{{3, 3}, {3, 5}, {0x7f, 28}}[s.Fault(3)]
		sc.EditHRR = func(sh *ref.ServerHello) { sh.Exts[0].Data = v }
	case 5:
		did, hellos = append(did, "unknown extension"), 1
		v := []int{0x1234, ref.ExtALPN, ref.ExtEarly, ref.ExtPSK, ref.ExtCookie}[s.Fault(5)]
		sc.EditHRR = func(sh *ref.ServerHello) {
			sh.Exts = append(sh.Exts, ref.Ext{Type: v, Data: []byte{0, 1, 0}[:s.Fault(4)]})
		}
	case 6:
		did, hellos = append(did, "no version"), 1
		sc.EditHRR = func(sh *ref.ServerHello) { sh.Exts = sh.Exts[1:] }
	case 7:
		did = append(did, "session id")
		sc.EditHRR = func(sh *ref.ServerHello) { sh.SessionID = Pattern(4, 0, 1+s.Fault(32)) }
	}
	var r *refEnd
	x.start(true, func(t net.Conn) foreign {
		r = s.newRef(t, nil, sc)
		r.c.Hook = func(c *ref.Conn, name string, msg []byte) [][]byte {
			if name == "HRR" {
				hrr = msg
			}
			if name == "SH" && second {
				other := append([]byte{}, hrr...)
				if s.FaultP(1, 2) {
					other[len(other)-1] ^= 1
				}
				return [][]byte{other, msg}
			}
			return [][]byte{msg}
		}
		return r
	})
	s.K.Run(s.Failed)
	s.Param("retry: %s", strings.Join(did, ", "))
	for _, d := range did {
		s.K.Faults["retry "+d]++
	}
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	s.NonTriv = true
	n := 0
	var hs []byte
	for _, w := range x.CT.Out.Wire {
		if w[0] == 22 {
			hs = append(hs, w[5:]...)
		}
	}
	for len(hs) >= 4 && hs[0] == 1 {
		l := 4 + int(hs[1])<<16 + int(hs[2])<<8 + int(hs[3])
		if l > len(hs) {
			break
		}
		n++
		hs = hs[l:]
	}
	if n > hellos {
		s.Fail("bad-retry-answered", "c answers with hello number %d (retry: %s)", n, strings.Join(did, ", "))
		return
	}
	if len(did) > 0 && did[0] != "session id" {
		if x.M.Done {
			s.Fail("bad-retry-accepted", "c completed (retry: %s)", strings.Join(did, ", "))
		}
		return
	}
	if len(did) == 0 && sc.Key != nil && cf.E.OK && !x.M.Done {
		s.Fail("handshake-broken", "c does not complete after a retry (%s; %v)", x.M.status(), x.FErr)
	}
}

package engine

import (
	"bytes"
	"fmt"
	"net"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

func init() {
	register("C11",
		Scenario{"history", 10, func(s *Sim) { ticketHistory(s, false) }},
		Scenario{"history-dtls", 4, func(s *Sim) { ticketHistory(s, true) }},
		Scenario{"issuer", 4, ticketIssuer},
		Scenario{"offers", 5, ticketOffers},
	)
}

// tolerance is how far the two ends may disagree about a ticket's age.
const tolerance = 5 * time.Second

// host is one end's machine: its clock and its store outlive connections.
type host struct {
	name  string
	skew  time.Duration
	live  *Peer
	store *Store
	old   map[string]mint.PreSharedKey // an earlier state of the store
}

func (h *host) now() time.Time { return time.Now().Add(h.skew) }

func (h *host) jump(s *Sim, d time.Duration) {
	s.K.Logf("%s clock jumps %v", h.name, d)
	h.skew += d
	if h.live != nil {
		h.live.Node.Skew = h.skew
	}
}

// got is a key as a lookup found it, and when.
type got struct {
	ok bool
	p  mint.PreSharedKey
	at time.Time
}

// usable says whether a key may be used: 1 yes, 0 no, -1 too close to say.
func (g got) usable() int {
	life := g.p.ExpiresAt.Sub(g.p.ReceivedAt)
	switch {
	case !g.ok:
		return 0
	case life < time.Second:
		return 1
	}
	d := g.at.Sub(g.p.ExpiresAt)
	if d > -5*time.Millisecond && d < 5*time.Millisecond {
		return -1
	}
	if d > 0 {
		return 0
	}
	return 1
}

// ledger predicts what becomes of tickets.
type ledger struct {
	s      *Sim
	c, v   *host
	cc, sc *mint.Config // as configured
	cGet   got
	sGet   map[string]got
	seen   map[string]bool // identities issued
	vague  bool

	between bool
	why     string
	expect  func(e Expect)
}

func without(c *mint.Config) *mint.Config {
	n := bare(c)
	n.PSKs = nil
	return n
}

// predict is what the connection must come to, given what the stores said.
func (l *ledger) predict() Expect {
	l.vague, l.why = l.between, ""
	p := l.cGet
	u := p.usable()
	c := without(l.cc)
	if u < 0 {
		l.vague = true
	}
	if u == 0 {
		l.why = "nothing to offer"
		return Predict(c, without(l.sc))
	}
	// the client offers only suites that go with its key
	suites := c.CipherSuites
	if len(suites) == 0 {
		suites = defaults["CipherSuites"].([]mint.CipherSuite)
	}
	c.CipherSuites = nil
	for _, x := range suites {
		if hashOf(x) == hashOf(p.p.CipherSuite) {
			c.CipherSuites = append(c.CipherSuites, x)
		}
	}
	full := Predict(c, without(l.sc))
	if len(c.CipherSuites) == 0 {
		full = Expect{Why: "no suite goes with the key"}
	}
	full.EarlyOffer = c.AllowEarlyData
	q, asked := l.sGet[hexID(p.p.Identity)]
	if !asked || !q.ok {
		l.why = "unknown"
		return full
	}
	switch q.usable() {
	case 0:
		l.why = "expired"
		return full
	case -1:
		l.vague = true
	}
	if q.p.IsResumption {
		// both in whole milliseconds, the client's first disguised
		age := uint32(p.at.Sub(p.p.ReceivedAt)/time.Millisecond) + p.p.TicketAgeAdd - q.p.TicketAgeAdd
		known := uint32(q.at.Sub(q.p.ReceivedAt) / time.Millisecond)
		d := int64(int32(known - age))
		if d < 0 {
			d = -d
		}
		x := time.Duration(d)*time.Millisecond - tolerance
		if x > -3*time.Millisecond && x < 3*time.Millisecond {
			l.vague = true
		}
		if x > 0 {
			l.why = fmt.Sprintf("age is %v off", x+tolerance)
			return full
		}
	}
	if !bytes.Equal(p.p.Key, q.p.Key) || p.p.IsResumption != q.p.IsResumption || hashOf(p.p.CipherSuite) != hashOf(q.p.CipherSuite) {
		l.why = "altered"
		return Expect{Why: "the ends hold different keys for the ticket", EarlyOffer: full.EarlyOffer}
	}
	c, v := bare(l.cc), bare(l.sc)
	cs, ss := NewStore(l.s), NewStore(l.s)
	cs.m[c.ServerName], ss.m[hexID(p.p.Identity)] = p.p, q.p
	c.PSKs, v.PSKs = cs, ss
	return Predict(c, v)
}

func sameKey(a, b mint.PreSharedKey) string {
	switch {
	case !bytes.Equal(a.Identity, b.Identity):
		return "identity"
	case !bytes.Equal(a.Key, b.Key):
		return "key"
	case a.CipherSuite != b.CipherSuite:
		return "suite"
	case a.NextProto != b.NextProto:
		return "application protocol"
	case a.TicketAgeAdd != b.TicketAgeAdd:
		return "age add"
	case a.ExpiresAt.Sub(a.ReceivedAt) != b.ExpiresAt.Sub(b.ReceivedAt):
		return "lifetime"
	case !a.IsResumption || !b.IsResumption:
		return "kind"
	}
	return ""
}

// alter spoils one field of a stored key.
func (s *Sim) alter(st *Store, k string) string {
	p, ok := st.m[k]
	if !ok {
		return ""
	}
	p.Identity, p.Key = append([]byte{}, p.Identity...), append([]byte{}, p.Key...)
	what := ""
	switch s.Fault(7) {
	case 0:
		what = "identity"
		p.Identity[s.Fault(len(p.Identity))] ^= byte(1 << s.Fault(8))
	case 1:
		what = "key"
		p.Key[s.Fault(len(p.Key))] ^= byte(1 << s.Fault(8))
	case 2:
		what = "short-key"
		p.Key = p.Key[:len(p.Key)-1]
	case 3:
		what = "age-add"
		p.TicketAgeAdd ^= 1 << s.Fault(32)
	case 4:
		what = "kind"
		p.IsResumption = !p.IsResumption
	case 5:
		what = "expiry"
		p.ExpiresAt = p.ExpiresAt.Add(-s.Dur("fault", p.ExpiresAt.Sub(p.ReceivedAt)+time.Second))
	case 6:
		what = "received"
		p.ReceivedAt = p.ReceivedAt.Add(s.Dur("fault", 10*time.Second) - 5*time.Second)
	}
	st.m[k] = p
	return what
}

func copyKeys(m map[string]mint.PreSharedKey) map[string]mint.PreSharedKey {
	n := map[string]mint.PreSharedKey{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// meddle is what happens to a host between two connections.
func (s *Sim) meddle(h *host, life time.Duration) {
	st := h.store
	ks := sortedSnap(st.m)
	switch s.FaultW(8, 2, 1, 2, 2, 5) {
	case 1:
		s.K.Fault(h.name + "-store-lost")
		st.m = map[string]mint.PreSharedKey{}
	case 2:
		if len(ks) > 0 {
			s.K.Fault(h.name + "-entry-lost")
			delete(st.m, ks[s.Fault(len(ks))])
		}
	case 3:
		// the last writes never reached the disk
		s.K.Fault(h.name + "-store-rolled-back")
		st.m = copyKeys(h.old)
	case 4:
		if len(ks) > 0 {
			if what := s.alter(st, ks[s.Fault(len(ks))]); what != "" {
				s.K.Fault(h.name + "-altered-" + what)
			}
		}
	case 5:
		h.jump(s, s.jumpSize(life))
		s.K.Fault(h.name + "-clock-jump")
	}
	if s.FaultP(1, 2) {
		h.old = copyKeys(st.m)
	}
}

func (s *Sim) jumpSize(life time.Duration) time.Duration {
	d := []time.Duration{time.Second, 4 * time.Second, 8 * time.Second, 10 * time.Minute, life + time.Minute}[s.FaultW(3, 3, 2, 1, 1)]
	d = time.Duration(1+s.Fault(1000)) * d / 1000
	if s.FaultP(1, 2) {
		return -d
	}
	return d
}

func ticketHistory(s *Sim, dtls bool) {
	s.Sched()
	g := Gen{DTLS: dtls, PSK: 20, Resume: 10, Early: 40, Auth: 20, NB: 50, Cookie: 20, Tickets: 100, Slow: s.CfgP(1, 10), Default: 40}
	if dtls {
		g.NB = 100
	}
	var cf *Conf
	for try := 0; ; try++ {
		cf = s.GenConf(g)
		if Predict(without(cf.C), without(cf.S)).OK || try > 10 {
			break
		}
	}
	life := []time.Duration{0, time.Second, 10 * time.Second, time.Hour, 24 * time.Hour, 7 * 24 * time.Hour}[s.CfgW(1, 1, 2, 3, 2, 1)]
	cf.S.TicketLifetime = uint32(life / time.Second)
	s.Param("ticket lifetime %v", life)
	c, v := &host{name: "client", store: cf.CStore}, &host{name: "server", store: cf.SStore}
	if s.CfgP(1, 2) {
		c.skew, v.skew = s.jumpSize(time.Hour), s.jumpSize(time.Hour)
	}
	c.old, v.old = copyKeys(c.store.m), copyKeys(v.store.m)
	l := &ledger{s: s, c: c, v: v, cc: bare(cf.C), sc: bare(cf.S), seen: map[string]bool{}}
	names := []string{cf.C.ServerName}
	for _, n := range []string{nameA, nameB, nameC} {
		o := without(cf.C)
		o.ServerName = n
		if n != cf.C.ServerName && Predict(o, without(cf.S)).OK {
			names = append(names, n)
		}
	}
	keys := map[string]string{}
	s.K.OnSeal = func(e simrt.Seal) {
		if len(e.Node) < 3 || e.Node[1] != '.' {
			return
		}
		if o, ok := keys[string(e.Key)]; ok && o != e.Node {
			s.Fail("stale-key", "%s protects records with a key of %s", e.Node, o)
		}
		keys[string(e.Key)] = e.Node
	}
	exported := map[string]string{}
	resumed := 0
	n := 2 + s.CfgW(2, 3, 3, 2, 1)
	for i := 0; i < n && !s.Failed(); i++ {
		if i > 0 {
			s.meddle(c, life)
			s.meddle(v, life)
			switch s.OpW(5, 3, 2, 1) {
			case 1:
				s.Pause(s.Dur("op", 4*time.Second))
			case 2: // about when it expires
				d := life - 12*time.Second + s.Dur("op", 20*time.Second)
				if d > 0 {
					s.Pause(d)
				}
			case 3:
				s.Pause(s.Dur("op", 60*24*time.Hour))
			}
		}
		name := fmt.Sprintf("%d.", i)
		cur := &Conf{C: bare(cf.C), S: cf.S, CStore: cf.CStore, SStore: cf.SStore, PSK: cf.PSK, Cookies: cf.Cookies}
		if len(names) > 1 && s.CfgP(1, 4) {
			cur.C.ServerName = names[s.Cfg(len(names))]
		}
		l.cc = bare(cur.C)
		l.cGet, l.sGet = got{}, map[string]got{}
		// what counts is when a hello leaves
		hellos := 0
		hello := func() {
			u := l.cGet.usable()
			p, ok := c.store.m[cur.C.ServerName]
			l.cGet = got{ok, p, c.now()}
			if hellos++; hellos > 1 && l.cGet.usable() != u {
				l.between = true
			}
			cur.E = l.predict()
		}
		v.store.OnGet = func(k string, p mint.PreSharedKey, ok bool) {
			if l.cGet.usable() == 0 || k != hexID(l.cGet.p.Identity) {
				s.Fail("offer-invented", "%s: a ticket was presented that the client should not have offered", name)
			}
			l.sGet[k] = got{ok, p, v.now()}
			cur.E = l.predict()
		}
		var cput, sput []mint.PreSharedKey
		put := func(h *host, to *[]mint.PreSharedKey) func(string, mint.PreSharedKey) {
			return func(k string, p mint.PreSharedKey) {
				*to = append(*to, p)
				if d := p.ReceivedAt.Sub(h.now()); d > time.Millisecond || d < -time.Millisecond {
					s.Fail("ticket-time", "the %s stores a ticket as received %v from now", h.name, d)
				}
				if d := p.ExpiresAt.Sub(p.ReceivedAt); d != life {
					s.Fail("ticket-lifetime", "the %s stores a ticket with a lifetime of %v, not %v", h.name, d, life)
				}
				if h == c && k != cur.C.ServerName || h == v && k != hexID(p.Identity) {
					s.Fail("ticket-filed", "the %s stores a ticket where it will not be found", h.name)
				}
			}
		}
		c.store.OnPut, v.store.OnPut = put(c, &cput), put(v, &sput)
		// what a lookup now would find decides whether there is early data
		p, ok := c.store.m[cur.C.ServerName]
		l.cGet = got{ok, p, c.now()}
		cur.E = l.predict()
		l.cGet, l.between = got{}, false
		abort, over := s.FaultP(1, 10), false
		jump := s.FaultP(1, 8) && !dtls // timers go by the monotonic clock
		if jump {
			h := []*host{c, v}[s.Fault(2)]
			s.K.At(s.Dur("fault", 200*time.Millisecond), "jump", func() {
				if h.live == nil || over {
					return
				}
				h.jump(s, s.jumpSize(life))
				s.K.Fault("clock-jump-meanwhile")
			})
		}
		var cp, sp *Peer
		var x *Session
		var d *DSession
		if dtls {
			pol := s.quickDPol()
			if s.CfgP(1, 3) {
				pol.Loss, pol.Dup = 150, 50
				pol.MaxLat = 50 * time.Millisecond
			}
			s.FaultEnd = s.K.Now() + 2*time.Second
			d = s.NewDSession(name, uint32(i+1), cur, pol)
			d.CPlan.Ops, d.SPlan.Ops = s.dgramPlan(2, 0), s.dgramPlan(2, 0)
			d.Hostile = abort
			d.HsBound = 40 * time.Second
			if cur.E.EarlyOffer && !l.vague && !jump {
				d.Early = s.earlyWrites(300)
			}
			seen := map[byte]bool{}
			d.CT.Out.Tap = func(i int, b []byte) bool {
				if len(b) > 25 && b[0] == 22 && b[3] == 0 && b[4] == 0 && b[13] == 1 && !seen[b[18]] {
					seen[b[18]] = true
					hello()
				}
				return false
			}
			d.Start()
			cp, sp = d.C, d.S
		} else {
			pol := s.LinkPol()
			x = s.NewSession(name, uint32(i+1), cur, pol, Judge{Stream: true, KU: true})
			x.CPlan, x.SPlan = s.GenApp(AppGen{MaxOps: 2}), s.GenApp(AppGen{MaxOps: 2})
			if abort {
				x.Quiet, x.J = true, Judge{}
			}
			if cur.E.EarlyOffer && !l.vague && !jump {
				x.Early = s.earlyWrites(1000)
			}
			x.CT.Out.OnWire = func(r []byte) {
				if len(r) > 6 && r[0] == 22 && r[5] == 1 {
					hello()
				}
			}
			x.Start()
			cp, sp = x.C, x.S
		}
		c.live, v.live = cp, sp
		cp.Node.Skew, sp.Node.Skew = c.skew, v.skew
		if abort {
			s.K.Fault("abort")
			s.K.At(s.Dur("fault", time.Second), "abort", func() {
				cp.Tr.Close()
				if s.FaultP(1, 2) {
					sp.Tr.Close()
				}
			})
		}
		s.K.Run(s.Failed)
		if s.Failed() || s.CheckPanics() {
			return
		}
		e := cur.E
		s.K.Logf("%s expected: ok=%v (%s) psk=%v (%s) vague=%v", name, e.OK, e.Why, e.PSK, l.why, l.vague)
		if !abort {
			if dtls {
				if !l.vague {
					d.FinishHs()
				}
			} else {
				if !l.vague {
					x.J.Hs, x.J.View = true, true
				}
				x.Finish()
			}
		}
		if s.Failed() {
			return
		}
		for _, p := range []*Peer{cp, sp} {
			if p.Done && p.Conn.ConnectionState().UsingPSK && !e.PSK && !l.vague {
				s.Fail("ticket-used", "%s completed with a ticket that must not be used: %s", p.Name, l.why)
				return
			}
		}
		if cp.Done && sp.Done {
			if e.PSK && l.sGet[hexID(l.cGet.p.Identity)].p.IsResumption {
				resumed++
				s.K.Probe("resumed")
			} else {
				s.K.Probe("full: " + map[bool]string{true: "age off", false: l.why}[len(l.why) > 4 && l.why[:4] == "age "])
			}
			ev, err := cp.Conn.ComputeExporter("EXPORTER-c11", nil, 32)
			if err == nil {
				if o, ok := exported[string(ev)]; ok {
					s.Fail("stale-key", "connections %s and %s export the same secret", o, name)
					return
				}
				exported[string(ev)] = name
			}
		} else if !abort && e.OK {
			s.Fail("handshake-stuck", "%s: neither failed nor completed", name)
			return
		}
		if !abort && cp.Done && sp.Done {
			if len(sput) != 1 || len(cput) != 1 {
				s.Fail("ticket-count", "%s: the server issued %d tickets, the client stored %d", name, len(sput), len(cput))
				return
			}
			if f := sameKey(cput[0], sput[0]); f != "" {
				s.Fail("ticket-differs", "%s: client and server disagree about the %s of a ticket", name, f)
				return
			}
			if cput[0].CipherSuite != cp.Conn.ConnectionState().CipherSuite.Suite || cput[0].NextProto != cp.Conn.ConnectionState().NextProto {
				s.Fail("ticket-wrong", "%s: the ticket is for suite %v and protocol %q", name, cput[0].CipherSuite, cput[0].NextProto)
				return
			}
		}
		for _, p := range sput {
			id := string(p.Identity)
			if l.seen[id] || l.seen["k"+string(p.Key)] {
				s.Fail("ticket-repeated", "%s: a ticket or its key was issued before", name)
				return
			}
			l.seen[id], l.seen["k"+string(p.Key)] = true, true
		}
		for _, p := range []*Peer{cp, sp} {
			if !p.closed() {
				p.Tr.Close()
			}
		}
		s.K.Run(s.Failed)
		c.live, v.live = nil, nil
		over = true
	}
	s.NonTriv = resumed > 0
}

// ticketIssuer: an independent server issues tickets of all sorts; a mint
// client must offer the latest as long as it is good, and nothing later, and
// give its age rightly.
func ticketIssuer(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{Auth: 20, NB: 50, Cookie: 20, Early: 30})
	sc := s.RefServer(cf)
	if sc.Key == nil {
		return
	}
	c := &host{name: "client", store: cf.CStore}
	if s.CfgP(1, 2) {
		c.skew = s.jumpSize(time.Hour)
	}
	x := s.NewX("1", 1, cf, true, s.quickPol())
	var life uint32
	if s.CfgP(4, 5) {
		life = []uint32{1, 5, 60, 3600, 7 * 86400, 1<<31 - 1, 1<<32 - 1}[s.Cfg(7)]
		if d := life / 4; d > 0 {
			life -= uint32(s.Cfg(int(min(d, 1<<30))))
		}
	}
	n := 1 + s.CfgW(4, 2, 1, 1)
	for i := 0; i < n; i++ {
		if s.OpP(1, 2) {
			x.FPlan.Ops = append(x.FPlan.Ops, Op{Kind: "write", N: 1 + s.Op(100)})
		}
		x.FPlan.Ops = append(x.FPlan.Ops, Op{Kind: "ticket"})
		if s.OpP(1, 3) {
			x.FPlan.Ops = append(x.FPlan.Ops, Op{Kind: "sleep", D: s.Dur("op", 3*time.Second)})
		}
	}
	x.FPlan.Ops = append(x.FPlan.Ops, Op{Kind: "write", N: 1})
	var r *refEnd
	var puts []mint.PreSharedKey
	var at []time.Time
	c.store.OnPut = func(k string, p mint.PreSharedKey) {
		if k != cf.C.ServerName {
			s.Fail("ticket-filed", "the client stores a ticket for %q as one for %q", cf.C.ServerName, k)
		}
		puts, at = append(puts, p), append(at, c.now())
	}
	x.start(true, func(t net.Conn) foreign {
		r = s.newRef(t, nil, sc)
		r.maxEar, r.life = []int{-1, 0, 16384, 1<<32 - 1}[s.Op(4)], life
		return r
	})
	c.live, x.C.Node.Skew = x.C, c.skew
	s.K.Run(s.Failed)
	if !x.FinishX(true, "") {
		return
	}
	if len(puts) != len(r.issued) || len(puts) != n {
		s.Fail("ticket-count", "the server issued %d tickets, the client stored %d", len(r.issued), len(puts))
		return
	}
	cs := x.C.Conn.ConnectionState()
	for i, p := range puts {
		t := r.issued[i]
		if !bytes.Equal(p.Identity, t.ID) || !bytes.Equal(p.Key, t.Key) || p.TicketAgeAdd != t.AgeAdd || p.NextProto != cs.NextProto || p.CipherSuite != cs.CipherSuite.Suite || !p.IsResumption {
			s.Fail("ticket-differs", "the client stores another ticket than the server issued")
			return
		}
		if d := p.ExpiresAt.Sub(p.ReceivedAt); d != time.Duration(life)*time.Second {
			s.Fail("ticket-lifetime", "the client stores a ticket of %d seconds as one of %v", life, d)
			return
		}
		if d := p.ReceivedAt.Sub(at[i]); d > time.Millisecond || d < -time.Millisecond {
			s.Fail("ticket-time", "the client stores a ticket as received %v from now", d)
			return
		}
	}
	x.closeAll()
	if s.CheckPanics() {
		return
	}
	c.live = nil
	switch s.FaultW(3, 2, 2, 2) {
	case 1:
		s.Pause(s.Dur("op", time.Minute))
	case 2: // about when it expires
		if d := time.Duration(life)*time.Second - 12*time.Second + s.Dur("op", 20*time.Second); d > 0 && d < 365*24*time.Hour {
			s.Pause(d)
		}
	case 3:
		s.Pause(s.Dur("op", 60*24*time.Hour))
	}
	if s.FaultP(1, 3) {
		c.jump(s, s.jumpSize(time.Duration(min(life, 30*86400))*time.Second))
		s.K.Fault("client-clock-jump")
	}
	last := puts[len(puts)-1]
	known := !s.CfgP(1, 6)
	sc2 := *sc
	sc2.PSKs, sc2.HRR = nil, 0
	if known {
		for _, t := range r.issued {
			sc2.PSKs = append(sc2.PSKs, ref.PSK{ID: t.ID, Key: t.Key, Suite: t.Suite, Resumption: true, ALPN: t.ALPN})
		}
	}
	cf.C.AllowEarlyData = false
	cf.E.EarlyOffer = false
	y := s.NewX("2", 2, cf, true, s.quickPol())
	y.MPlan, y.FPlan = s.xplan(false), s.xplan(false)
	var sent time.Time
	y.CT.Out.OnWire = func(b []byte) {
		if len(b) > 6 && b[0] == 22 && b[5] == 1 && sent.IsZero() {
			sent = c.now()
		}
	}
	var r2 *refEnd
	y.start(true, func(t net.Conn) foreign { r2 = s.newRef(t, nil, &sc2); return r2 })
	c.live, y.C.Node.Skew = y.C, c.skew
	s.K.Run(s.Failed)
	if !y.FinishX(true, "") {
		return
	}
	if len(r2.c.GotMsgs) == 0 {
		return
	}
	off, err := ref.Offered(r2.c.GotMsgs[0])
	if err != nil {
		s.Fail("offer-malformed", "the client's offer: %v", err)
		return
	}
	g := got{true, last, sent}
	switch u := g.usable(); {
	case u == 1 && len(off) == 0:
		s.Fail("ticket-not-offered", "the client does not offer a ticket of %d seconds after %v", life, sent.Sub(last.ReceivedAt))
		return
	case u == 0 && len(off) > 0:
		s.Fail("ticket-expired", "the client offers a ticket of %d seconds after %v", life, sent.Sub(last.ReceivedAt))
		return
	case len(off) > 1:
		s.Fail("offer-invented", "the client offers %d tickets", len(off))
		return
	}
	resumes := false
	if len(off) == 1 {
		if !bytes.Equal(off[0].ID, last.Identity) {
			s.Fail("offer-invented", "the client offers another ticket than the last it was given")
			return
		}
		age := sent.Sub(last.ReceivedAt) / time.Millisecond
		if d := int32(off[0].Obfuscated - last.TicketAgeAdd - uint32(int64(age))); d < -5 || d > 5 {
			s.Fail("ticket-age", "the client gives the age of a ticket as %d ms, it is %d", off[0].Obfuscated-last.TicketAgeAdd, age)
			return
		}
		resumes = known
	}
	if y.f.View().PSK != resumes {
		s.Fail("ticket-not-used", "ticket offered: %v, known: %v, used: %v", len(off) > 0, known, y.f.View().PSK)
		return
	}
	s.K.Probe(fmt.Sprintf("issuer: offered=%v known=%v", len(off) > 0, known))
	s.NonTriv = resumes
}

// ticketOffers: an independent client offers several tickets at a time; the
// server must use the first that is good, and none other.
func ticketOffers(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{Auth: 20, NB: 50, Cookie: 20, Early: 40, Tickets: 100, Default: 50})
	cf.S.TicketLen = min(cf.S.TicketLen, 8000) // several go into one hello
	life := []uint32{0, 60, 3600, 86400}[s.CfgW(1, 2, 4, 2)]
	cf.S.TicketLifetime = life
	v := &host{name: "server", store: cf.SStore}
	if s.CfgP(1, 2) {
		v.skew = s.jumpSize(time.Hour)
	}
	var ks []ticketRec
	base := s.RefClient(cf)
	n := 1 + s.CfgW(2, 3, 2)
	for i := 0; i < n; i++ {
		cc := *base
		cc.Shares, cc.SessionID = append([]int{}, base.Shares...), nil
		cc.PSKs, cc.OfferEarly, cc.Early = nil, false, nil
		if i > 0 && s.OpP(1, 2) {
			s.Pause(s.Dur("op", 20*time.Second))
		}
		if k := s.Op(len(base.Suites)); s.OpP(1, 2) {
			cc.Suites = append(append([]int{}, base.Suites[k:]...), base.Suites[:k]...)
		}
		x := s.NewX(fmt.Sprintf("%d", i), uint32(i+1), cf, false, s.quickPol())
		x.MPlan, x.FPlan = s.xplan(false), s.xplan(false)
		var r *refEnd
		x.start(false, func(t net.Conn) foreign { r = s.newRef(t, &cc, nil); return r })
		v.live, x.S.Node.Skew = x.S, v.skew
		s.K.Run(s.Failed)
		if !x.FinishX(true, "") {
			return
		}
		if len(r.c.Tickets) != 1 {
			s.Fail("ticket-count", "the client was given %d tickets", len(r.c.Tickets))
			return
		}
		ks = append(ks, ticketRec{t: r.c.Tickets[0], at: time.Now()})
		x.closeAll()
		if s.CheckPanics() {
			return
		}
		v.live = nil
	}
	switch s.FaultW(3, 2, 2) {
	case 1:
		s.Pause(s.Dur("op", time.Minute))
	case 2:
		s.Pause(s.Dur("op", time.Duration(life+life/8)*time.Second))
	}
	if s.FaultP(1, 3) {
		v.jump(s, s.jumpSize(time.Duration(life)*time.Second))
		s.K.Fault("server-clock-jump")
	}
	// what is offered, in which order
	cc := *base
	cc.Shares, cc.SessionID, cc.PSKs = append([]int{}, base.Groups...), nil, nil
	m := len(ks) + s.FaultW(2, 2, 1)
	order := make([]int, m)
	for i := range order {
		j := s.Op(i + 1)
		order[i], order[j] = order[j], i
	}
	for _, i := range order {
		if i >= len(ks) {
			s.K.Fault("unknown-ticket")
			cc.PSKs = append(cc.PSKs, ref.PSK{ID: Pattern(uint32(500+i), 0, 1+s.Fault(60)), Key: Pattern(3, 0, 32), Suite: ks[0].t.Suite, Resumption: true, Obfuscated: uint32(s.Fault(1 << 30))})
			continue
		}
		t := ks[i].t
		age := time.Since(ks[i].at)
		p := ref.PSK{ID: t.ID, Key: t.Key, Suite: t.Suite, Resumption: true, ALPN: t.ALPN}
		k := hexID(t.ID)
		q := v.store.m[k]
		switch s.FaultW(6, 2, 2, 2) {
		case 1:
			s.K.Fault("server-forgot")
			delete(v.store.m, k)
		case 2:
			s.K.Fault("server-expired")
			q.ReceivedAt = q.ReceivedAt.Add(-2 * time.Hour)
			q.ExpiresAt = v.now().Add(-time.Second)
			v.store.m[k] = q
			if s.FaultP(1, 2) {
				age += 2 * time.Hour
			}
		case 3:
			s.K.Fault("wrong-age")
			d := []time.Duration{6 * time.Second, 10 * time.Second, time.Minute, 24 * time.Hour, 24 * 24 * time.Hour, 30 * 24 * time.Hour}[s.Fault(6)]
			d -= s.Dur("fault", d/3)
			if s.FaultP(1, 2) {
				d = -d
			}
			age += d
		}
		p.Obfuscated = uint32(age/time.Millisecond) + t.AgeAdd
		cc.PSKs = append(cc.PSKs, p)
	}
	cc.Modes = [][]int{{1, 0}, {1}, {0}}[s.Cfg(3)]
	cc.OfferEarly = s.CfgP(1, 3)
	first := -1
	vague, again := false, false
	judge := func() {
		first = -1
		for i, p := range cc.PSKs {
			q, ok := v.store.m[hexID(p.ID)]
			g := got{ok, q, v.now()}
			u := g.usable()
			if u < 0 {
				vague = true
			}
			if u == 0 {
				continue
			}
			known := uint32(g.at.Sub(q.ReceivedAt) / time.Millisecond)
			d := time.Duration(int32(known-(p.Obfuscated-q.TicketAgeAdd))) * time.Millisecond
			if d < 0 {
				d = -d
			}
			if d -= tolerance; d > -3*time.Millisecond && d < 3*time.Millisecond {
				vague = true
			}
			if d > 0 {
				continue
			}
			first = i
			return
		}
	}
	cookie := cf.S.RequireCookie
	y := s.NewX("r", 9, cf, false, s.quickPol())
	// the model is consulted at the first lookup for each hello
	v.store.OnGet = func(k string, _ mint.PreSharedKey, _ bool) {
		if k == hexID(cc.PSKs[0].ID) {
			f := first
			judge()
			if again && f != first {
				vague = true
			}
			again = true
			y.cf.E.Early = cc.OfferEarly && cf.S.AllowEarlyData && !cookie && first == 0
		}
	}
	if cc.OfferEarly {
		for _, b := range s.earlyWrites(2000) {
			cc.Early = append(cc.Early, y.earlyBytes(len(b)))
		}
	}
	y.MPlan, y.FPlan = s.xplan(false), s.xplan(false)
	var r *refEnd
	y.start(false, func(t net.Conn) foreign { r = s.newRef(t, &cc, nil); return r })
	y.C.pos = len(y.early)
	v.live, y.S.Node.Skew = y.S, v.skew
	s.K.Run(s.Failed)
	if vague && !s.Failed() {
		s.CheckPanics() // a ticket became good, or ceased to be, on the way
		return
	}
	if !y.FinishX(true, "") {
		return
	}
	w := r.c.Res
	if w.PSK != first {
		s.Fail("ticket-chosen", "of %d tickets the server had to use number %d (-1: none), it used number %d", len(cc.PSKs), first, w.PSK)
		return
	}
	if first >= 0 && (w.Suite != cc.PSKs[first].Suite || w.ALPN != cc.PSKs[first].ALPN) {
		s.Fail("ticket-chosen", "resumed with suite %04x and protocol %q instead of %04x and %q", w.Suite, w.ALPN, cc.PSKs[first].Suite, cc.PSKs[first].ALPN)
		return
	}
	s.K.Probe(fmt.Sprintf("offers: %d of %d", first, len(cc.PSKs)))
	s.NonTriv = first >= 0
}

type ticketRec struct {
	t  ref.Ticket
	at time.Time
}

package engine

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
)

// FView is what a foreign endpoint believes.
type FView struct {
	Suite int
	ALPN  string
	PSK   bool
	Early bool
	Peer  []*x509.Certificate
	SNI   string
}

// foreign is an endpoint that is not mint.
type foreign interface {
	Handshake() error
	Write([]byte) error
	Read([]byte) (int, error)
	KeyUpdate(req bool) bool // false: cannot
	Ticket() bool
	Buffered() int
	Export(label string, ctx []byte, n int) ([]byte, error)
	View() FView
	Answers() (requested, received int) // updates it asked for, updates it got
	EarlyData() []byte
}

// refEnd is the reference endpoint of package ref.
type refEnd struct {
	s      *Sim
	c      *ref.Conn
	cc     *ref.ClientConfig
	sc     *ref.ServerConfig
	reqs   int
	issued []ref.Ticket
	nonce  byte
	maxEar int
	life   uint32
	when   []time.Time
}

func (r *refEnd) Handshake() error {
	var err error
	if r.cc != nil {
		err = r.c.ClientHandshake(r.cc)
	} else {
		err = r.c.ServerHandshake(r.sc)
	}
	return err
}
func (r *refEnd) Write(b []byte) error       { return r.c.Write(b) }
func (r *refEnd) Read(b []byte) (int, error) { return r.c.Read(b) }
func (r *refEnd) Buffered() int              { return r.c.InBuffered() }
func (r *refEnd) KeyUpdate(req bool) bool {
	if req {
		r.reqs++
	}
	return r.c.KeyUpdate(req) == nil
}
func (r *refEnd) Ticket() bool {
	if r.sc == nil {
		return false
	}
	r.nonce++
	n := []byte{r.nonce, 7}
	if r.s.OpP(1, 4) {
		n = nil
		if r.nonce > 1 {
			n = []byte{r.nonce}
		}
	}
	id := Pattern(uint32(9000+int(r.nonce)), 0, 1+r.s.Op([]int{120, 120, 120, 40000}[r.s.OpW(4, 1, 1, 1)]))
	t, err := r.c.SendTicket(r.life, uint32(r.s.Op(1<<30))*4+1, n, id, r.maxEar)
	if err == nil {
		r.issued = append(r.issued, t)
		r.when = append(r.when, time.Now())
	}
	return err == nil
}
func (r *refEnd) Export(l string, c []byte, n int) ([]byte, error) { return r.c.Export(l, c, n), nil }
func (r *refEnd) View() FView {
	x := r.c.Res
	return FView{x.Suite, x.ALPN, x.PSK >= 0, x.Early, x.PeerCerts, x.SNI}
}
func (r *refEnd) Answers() (int, int) { return r.reqs, r.c.KUsRecv }
func (r *refEnd) EarlyData() []byte   { return r.c.Res.EarlyData }

// stdEnd is crypto/tls.
type stdEnd struct {
	c *tls.Conn
}

func (r *stdEnd) Handshake() error           { return r.c.Handshake() }
func (r *stdEnd) Write(b []byte) error       { _, err := r.c.Write(b); return err }
func (r *stdEnd) Read(b []byte) (int, error) { return r.c.Read(b) }
func (r *stdEnd) KeyUpdate(bool) bool        { return true }
func (r *stdEnd) Ticket() bool               { return true }
func (r *stdEnd) Buffered() int              { return 0 }
func (r *stdEnd) Export(l string, c []byte, n int) ([]byte, error) {
	cs := r.c.ConnectionState()
	return cs.ExportKeyingMaterial(l, c, n)
}
func (r *stdEnd) View() FView {
	cs := r.c.ConnectionState()
	return FView{int(cs.CipherSuite), cs.NegotiatedProtocol, cs.DidResume, false, cs.PeerCertificates, cs.ServerName}
}
func (r *stdEnd) Answers() (int, int) { return 0, 0 }
func (r *stdEnd) EarlyData() []byte   { return nil }

// XSession is a connection between mint and a foreign endpoint.
type XSession struct {
	*Session
	f       foreign
	M, F    *Peer // the mint side and the foreign side's bookkeeping
	FErr    error
	FDone   bool
	FRet    bool
	FPlan   AppPlan
	MPlan   AppPlan
	FWrErr  error
	opsLeft bool
	After   func() // the foreign side's task runs it after the handshake
}

// impatient is the transport of an endpoint whose Read would not come back
// for a record without data while its application has more to do.
type impatient struct {
	*Conn
	x *XSession
}

func (c *impatient) Read(b []byte) (int, error) {
	if c.x.opsLeft && !c.Readable() {
		return 0, os.ErrDeadlineExceeded
	}
	return c.Conn.Read(b)
}

// NewX makes a session; cf describes the mint side and, as far as it goes,
// the foreign one.
func (s *Sim) NewX(name string, tag uint32, cf *Conf, mintClient bool, pol *LinkPolicy) *XSession {
	x := &XSession{Session: &Session{s: s, cf: cf, Pol: pol, tag: tag, name: name, J: Judge{Stream: true, KU: true}}}
	if mintClient {
		x.CT, x.ST = NewStream(s, name+"c", name+"s", cf.C.NonBlocking, false, pol)
	} else {
		x.CT, x.ST = NewStream(s, name+"c", name+"s", false, cf.S.NonBlocking, pol)
	}
	return x
}

func (x *XSession) start(mintClient bool, mk func(t net.Conn) foreign) {
	s := x.s
	if mintClient {
		x.C = NewPeer(s, x.name+"c", x.cf.C, x.CT, true)
		x.S = newShadow(s, x.name+"s", x.ST, false)
		x.M, x.F = x.C, x.S
		x.CPlan, x.SPlan = x.MPlan, x.FPlan
	} else {
		x.S = NewPeer(s, x.name+"s", x.cf.S, x.ST, false)
		x.C = newShadow(s, x.name+"c", x.CT, true)
		x.M, x.F = x.S, x.C
		x.CPlan, x.SPlan = x.FPlan, x.MPlan
	}
	x.C.other, x.S.other = x.S, x.C
	x.C.patID, x.S.patID = x.tag*2+1, x.tag*2+2
	x.f = mk(x.F.Tr)
	if mintClient {
		x.M.Go("hs", func() { x.client() })
	} else {
		x.M.Go("hs", func() { x.server() })
	}
	x.F.Go("foreign", x.foreign)
}

func newShadow(s *Sim, name string, tr Transport, client bool) *Peer {
	p := &Peer{s: s, Name: name, Tr: tr, Client: client, HsErr: mint.AlertNoAlert}
	p.Node = newNode(name)
	return p
}

func (x *XSession) foreign() {
	k, p := x.s.K, x.F
	x.FErr = x.f.Handshake()
	x.FRet = true
	p.HsRet = true
	k.Logf("%s foreign handshake -> %v", p.Name, x.FErr)
	if x.FErr != nil {
		p.Tr.Close()
		p.WriteDone, p.ReadDone = true, true
		return
	}
	x.FDone, p.Done = true, true
	if x.M.Client {
		x.cf.E.Early = x.f.View().Early
	}
	if x.After != nil {
		x.After()
	}
	if e := x.f.EarlyData(); len(e) > 0 {
		if !x.gotBytes(p, e) {
			return
		}
	}
	if x.NoApp {
		return
	}
	ops := x.FPlan.Ops
	for {
		if len(ops) == 0 {
			p.WriteDone = true
		}
		if len(ops) > 0 && (!p.Tr.Readable() && x.f.Buffered() == 0 || x.s.C.Intn("poll", 2) == 0) {
			o := ops[0]
			ops = ops[1:]
			if !x.fdo(o) {
				ops = nil
			}
			continue
		}
		buf := make([]byte, x.bufSize(x.FPlan, len(x.accepted(p))-len(p.Got)))
		x.opsLeft = len(ops) > 0
		n, err := x.f.Read(buf)
		if err != nil && errors.Is(err, os.ErrDeadlineExceeded) {
			err = nil
		}
		if !x.gotBytes(p, buf[:n]) {
			break
		}
		if err != nil {
			p.ReadErr = err
			k.Logf("%s foreign read: %v", p.Name, err)
			break
		}
	}
	p.ReadDone, p.WriteDone = true, true
}

func (x *XSession) fdo(o Op) bool {
	p, k := x.F, x.s.K
	switch o.Kind {
	case "write":
		b := p.next(o.N)
		p.Attempt = append(p.Attempt, b...)
		err := x.f.Write(b)
		k.Logf("%s foreign write(%d) %v", p.Name, o.N, err)
		if err != nil {
			x.FWrErr = err
			return false
		}
		p.Accepted = append(p.Accepted, b...)
	case "keyupdate":
		k.Probe("keyupdate")
		k.Logf("%s foreign keyupdate %v", p.Name, o.Req)
		return x.f.KeyUpdate(o.Req)
	case "ticket":
		k.Logf("%s foreign ticket", p.Name)
		return x.f.Ticket()
	case "sleep":
		k.Sleep(o.D)
	}
	return true
}

// FinishX judges the session; ok says whether it had to complete.
func (x *XSession) FinishX(ok bool, why string) bool {
	s := x.s
	if s.Failed() || s.CheckPanics() {
		return false
	}
	m := x.M
	if ok {
		if !m.Done || !x.FDone {
			if !m.HsRet && !x.FRet {
				s.Fail("interop-stuck", "%s stops in state %v: %s", m.Name, m.Conn.ConnectionState().HandshakeState, s.K.Where())
			} else {
				s.Fail("interop-failed", "handshake with an independent implementation fails although both support the same parameters: mint %s: %s; other end: %v", m.Name, m.status(), x.FErr)
			}
			return false
		}
	} else if m.Done {
		s.Fail("interop-wrong", "%s completed although: %s", m.Name, why)
		return false
	}
	if !m.Done || !x.FDone {
		return true
	}
	v := x.f.View()
	cs := m.Conn.ConnectionState()
	if int(cs.CipherSuite.Suite) != v.Suite || cs.NextProto != v.ALPN || cs.UsingPSK != v.PSK || cs.UsingEarlyData != v.Early {
		s.Fail("interop-disagree", "mint sees suite=%v alpn=%q psk=%v early=%v, the other end suite=%04x alpn=%q psk=%v early=%v", cs.CipherSuite.Suite, cs.NextProto, cs.UsingPSK, cs.UsingEarlyData, v.Suite, v.ALPN, v.PSK, v.Early)
		return false
	}
	for i := 0; i < 6; i++ {
		l := exporterLabels[(i+s.Op(4))%len(exporterLabels)]
		c := exporterCtx[s.Op(len(exporterCtx))]
		ln := []int{32, 16, 48, 1 + s.Op(100), 254 + s.Op(4), 1 + s.Op(2500)}[s.OpW(3, 2, 2, 3, 1, 1)]
		a, err1 := m.Conn.ComputeExporter(l, c, ln)
		b, err2 := x.f.Export(l, c, ln)
		if err1 != nil || err2 != nil {
			s.Fail("interop-exporter", "exporter: mint %v, other %v", err1, err2)
			return false
		}
		if !bytes.Equal(a, b) {
			s.Fail("interop-exporter", "exporter %q, %d bytes of context, %d bytes: mint %s, other %s", l, len(c), ln, short(a), short(b))
			return false
		}
	}
	if x.NoApp {
		return true
	}
	for _, p := range []*Peer{m, x.F} {
		if !p.WriteDone {
			s.Fail("interop-writer-stuck", "%s never finishes writing: %s", p.Name, s.K.Where())
			return false
		}
		if p.ReadErr != nil && !errors.Is(p.ReadErr, io.EOF) {
			s.Fail("interop-read", "%s Read: %v after %d of %d bytes (foreign write: %v)", p.Name, p.ReadErr, len(p.Got), len(x.accepted(p)), x.FWrErr)
			return false
		}
		if len(p.Got) != len(x.accepted(p)) {
			s.Fail("interop-lost", "%s read %d of %d bytes; %s", p.Name, len(p.Got), len(x.accepted(p)), s.K.Where())
			return false
		}
	}
	if r, ok := x.f.(*refEnd); ok {
		req, got := r.Answers()
		if got-m.KUs < req {
			s.Fail("interop-keyupdate-unanswered", "%d updates were requested of mint, it sent %d answers", req, got-m.KUs)
			return false
		}
		if r.c.KUReq != m.KUReqs {
			s.Fail("interop-keyupdate-request", "mint was told to request %d updates, %d arrived", m.KUReqs, r.c.KUReq)
			return false
		}
	}
	return true
}

// ---- configurations of reference endpoints ----

func ints[T ~uint16](x []T) []int {
	var o []int
	for _, v := range x {
		o = append(o, int(v))
	}
	return o
}

func dflt(x, d []int) []int {
	if len(x) == 0 {
		return append([]int{}, d...)
	}
	return x
}

var refSuites = []int{0x1301, 0x1302}
var refGroups = []int{29, 23, 24, 25, 256}

func rawChain(c *mint.Certificate) [][]byte {
	var o [][]byte
	for _, x := range c.Chain {
		o = append(o, x.Raw)
	}
	return o
}

func refPSK(k mint.PreSharedKey) ref.PSK {
	return ref.PSK{ID: k.Identity, Key: k.Key, Suite: int(k.CipherSuite), Resumption: k.IsResumption, ALPN: k.NextProto,
		Obfuscated: uint32(time.Since(k.ReceivedAt)/time.Millisecond) + k.TicketAgeAdd}
}

func verifyFor(name string, usage x509.ExtKeyUsage) func([]*x509.Certificate) error {
	return func(ch []*x509.Certificate) error {
		o := x509.VerifyOptions{Roots: Roots("root"), DNSName: name, Intermediates: x509.NewCertPool(), KeyUsages: []x509.ExtKeyUsage{usage}, CurrentTime: time.Now()}
		for _, c := range ch[1:] {
			o.Intermediates.AddCert(c)
		}
		_, err := ch[0].Verify(o)
		return err
	}
}

// refFraming draws how a reference endpoint packs its handshake.
func (s *Sim) refFraming(r *ref.Records) {
	switch s.CfgW(3, 2, 1, 1) {
	case 1:
		r.Frag = func(n int) int { return 1 + s.C.Intn("frame", n) }
	case 2:
		r.Frag = func(n int) int {
			if n > 600 {
				return n / 8
			}
			return 1 + s.C.Intn("frame", 40)
		}
	case 3:
		r.Frag = func(n int) int { return n - s.C.Intn("frame", min(n, 5)) }
	}
	if s.CfgP(1, 3) {
		r.Pad = func() int { return []int{0, 1, 16, 300, 17000}[s.C.Intn("frame", 5)] }
	}
	r.CCS = s.CfgP(1, 2)
}

// RefClient translates the client half of a pair for a reference client.
func (s *Sim) RefClient(cf *Conf) *ref.ClientConfig {
	c := cf.C
	o := &ref.ClientConfig{ServerName: c.ServerName,
		Suites: dflt(ints(c.CipherSuites), refSuites),
		Groups: dflt(ints(c.Groups), []int{29, 23}),
		Sigs:   dflt(ints(c.SignatureSchemes), ints(allSchemes)),
		ALPN:   c.NextProtos,
		Modes:  []int{1, 0},
		Verify: verifyFor(c.ServerName, x509.ExtKeyUsageServerAuth),
	}
	o.Shares = append([]int{}, o.Groups...)
	if s.CfgP(1, 2) {
		o.SessionID = randID()
	}
	if len(c.PSKModes) > 0 {
		o.Modes = nil
		for _, m := range c.PSKModes {
			o.Modes = append(o.Modes, int(m))
		}
	}
	if k, ok := cf.CStore.m[c.ServerName]; ok {
		o.PSKs = []ref.PSK{refPSK(k)}
		o.OfferEarly = c.AllowEarlyData
		if s.CfgP(1, 5) && !o.OfferEarly {
			// other identities the server does not know, before and after
			f := ref.PSK{ID: []byte("unknown"), Key: Pattern(3, 0, 32), Suite: int(k.CipherSuite), Resumption: s.CfgP(1, 2), Obfuscated: 77}
			if s.CfgP(1, 2) {
				o.PSKs = append(o.PSKs, f)
			} else {
				o.PSKs = append([]ref.PSK{f}, o.PSKs...)
			}
		}
	}
	if len(c.Certificates) > 0 {
		x := c.Certificates[0]
		o.Chain, o.Key = rawChain(x), x.PrivateKey
	}
	return o
}

func randID() []byte {
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(i * 7)
	}
	return b
}

// RefServer translates the server half; nil if it has no certificate that fits.
func (s *Sim) RefServer(cf *Conf) *ref.ServerConfig {
	c, v := cf.C, cf.S
	o := &ref.ServerConfig{
		Suites: dflt(ints(v.CipherSuites), refSuites),
		Groups: dflt(ints(v.Groups), []int{29, 23}),
		Sigs:   dflt(ints(v.SignatureSchemes), ints(allSchemes)),
		ALPN:   v.NextProtos,
		Modes:  []int{1, 0},
		Early:  v.AllowEarlyData,
		Auth:   v.RequireClientAuth,
		Verify: verifyFor("", x509.ExtKeyUsageClientAuth),
	}
	if len(v.PSKModes) > 0 {
		o.Modes = nil
		for _, m := range v.PSKModes {
			o.Modes = append(o.Modes, int(m))
		}
	}
	if cf.E.ALPN == "" {
		o.ALPN = nil
	}
	if v.RequireCookie {
		o.HRR, o.Cookie = 1, Pattern(55, 0, 1+s.Cfg(300))
	}
	sch := c.SignatureSchemes
	if len(sch) == 0 {
		sch = allSchemes
	}
	for _, x := range v.Certificates {
		fit := false
		for _, n := range x.Chain[0].DNSNames {
			fit = fit || n == c.ServerName
		}
		ok := false
		for _, sc := range sch {
			ok = ok || schemeFits(sc, x)
		}
		if fit && ok && o.Key == nil {
			o.Chain, o.Key = rawChain(x), x.PrivateKey
		}
	}
	var ids []string
	for id := range cf.SStore.m {
		ids = append(ids, id)
	}
	for _, id := range sortedStrings(ids) {
		k := cf.SStore.m[id]
		raw, err := hex.DecodeString(id)
		if err != nil {
			continue
		}
		p := refPSK(k)
		p.ID = raw
		o.PSKs = append(o.PSKs, p)
	}
	return o
}

func (s *Sim) newRef(t net.Conn, cc *ref.ClientConfig, sc *ref.ServerConfig) *refEnd {
	r := &refEnd{s: s, c: ref.New(t, cc != nil), cc: cc, sc: sc, maxEar: -1, life: 3600}
	s.refFraming(&r.c.Rec)
	return r
}

func (s *Sim) xplan(tickets bool) AppPlan {
	p := s.GenApp(AppGen{MaxOps: 6, KU: 25, Big: s.OpP(1, 3), Sleep: time.Second})
	p.Single = s.OpP(1, 3)
	if tickets {
		for n := 1 + s.Op(2); n > 0; n-- {
			i := s.Op(len(p.Ops) + 1)
			p.Ops = append(p.Ops[:i:i], append([]Op{{Kind: "ticket"}}, p.Ops[i:]...)...)
		}
	}
	return p
}

func (p *Peer) stateName() string {
	if p.Conn == nil {
		return "foreign"
	}
	return fmt.Sprint(p.Conn.ConnectionState().HandshakeState)
}

// unknownExts are extensions an endpoint has to ignore.
func (s *Sim) unknownExts(n int, hello bool) ref.Exts {
	var out ref.Exts
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		x := ref.Ext{Type: 0x0a0a + 0x1010*s.Cfg(16), Data: Pattern(96, i, []int{0, 1, 5, 300}[s.Cfg(4)])}
		if hello && s.CfgP(1, 2) {
			// known ones that mint does not implement
			x = ref.Exts{{Type: 5, Data: []byte{1, 0, 0, 0, 0}}, {Type: 11, Data: []byte{1, 0}}, {Type: 18}, {Type: 21, Data: make([]byte, s.Cfg(300))},
				{Type: 23}, {Type: 27, Data: []byte{2, 0, 2}}, {Type: 35}, {Type: 49}, {Type: 50, Data: []byte{0, 2, 4, 3}}, {Type: 0xff01, Data: []byte{0}}}[s.Cfg(10)]
		}
		if !seen[x.Type] {
			seen[x.Type] = true
			out = append(out, x)
		}
	}
	return out
}

// within puts v somewhere into a list.
func (s *Sim) within(l []int, v int) []int {
	i := s.Cfg(len(l) + 1)
	return append(append(append([]int{}, l[:i]...), v), l[i:]...)
}

// greaseServer makes a reference server send values that a client has to
// ignore.
func (s *Sim) greaseServer(sc *ref.ServerConfig) {
	if !s.CfgP(1, 2) {
		return
	}
	sc.CRExts = s.unknownExts(s.Cfg(3), false)
	if s.CfgP(1, 2) {
		// schemes for certificates only are not for handshakes
		sc.CRSigs = []int{0x1a1a, 0x0201, 0x0809, 0x0401, 0x0501, 0x0601}[:1+s.Cfg(6)]
	}
	sc.NSTExts = s.unknownExts(s.Cfg(3), false)
	s.K.Probe("unknown values from the server")
}

func u16list(l []int) []byte {
	var b []byte
	for _, v := range l {
		b = append(b, u16b(v)...)
	}
	return b
}

// greaseClient makes a reference client offer values that a server has to
// ignore, and extensions in any order.
func (s *Sim) greaseClient(cc *ref.ClientConfig) {
	if !s.CfgP(1, 2) {
		return
	}
	g := func() int {
		if s.CfgP(1, 2) {
			return -1
		}
		return 0x0a0a + 0x1010*s.Cfg(16)
	}
	suite, version, group, share, sig, mode := g(), g(), g(), g(), g(), g()
	alpn := s.CfgP(1, 3)
	if suite > 0 {
		cc.Suites = s.within(cc.Suites, suite)
	}
	if s.CfgP(1, 3) {
		cc.Suites = append(cc.Suites, 0xc02f, 0x009c, 0x00ff)
	}
	groups := cc.Groups
	if group > 0 && len(groups) > 0 {
		groups = s.within(groups, group)
	}
	if sig > 0 && len(cc.Sigs) > 0 {
		cc.Sigs = s.within(s.within(cc.Sigs, sig), 0x0203)
	}
	if s.CfgP(1, 3) && len(cc.Sigs) > 0 {
		// for certificates only
		for _, v := range []int{0x0201, 0x0401, 0x0501, 0x0601}[:1+s.Cfg(4)] {
			cc.Sigs = s.within(cc.Sigs, v)
		}
	}
	if alpn && len(cc.ALPN) > 0 {
		cc.ALPN = append([]string{"\x5a\x5a"}, cc.ALPN...)
	}
	if mode > 0 {
		cc.Modes = s.within(cc.Modes, mode&0xff)
	}
	more := s.unknownExts(s.Cfg(4), true)
	order := s.CfgP(1, 2)
	perm := make([]int, 40)
	for i := range perm {
		perm[i] = s.Cfg(i + 1)
	}
	vs := []int{0x0304}
	if version > 0 {
		vs = s.within(vs, version)
	}
	if s.CfgP(1, 3) {
		vs = append(vs, 0x0303, 0x0302)
	}
	at := s.Cfg(3)
	cc.EditCH = func(ch *ref.ClientHello, second bool) {
		e := append(append(ref.Exts{}, more...), ch.Exts...)
		for i := range e {
			switch e[i].Type {
			case ref.ExtVersions:
				e[i].Data = ref.V8(u16list(vs))
			case ref.ExtGroups:
				e[i].Data = ref.V16(u16list(groups))
			case ref.ExtKeyShare:
				if share > 0 && len(e[i].Data) >= 2 {
					x := append(u16b(share), 0, 1, 0)
					b := e[i].Data[2:]
					if at == 0 {
						b = append(append([]byte{}, b...), x...)
					} else {
						b = append(x, b...)
					}
					e[i].Data = ref.V16(b)
				}
			}
		}
		n := len(e)
		if n > 0 && e[n-1].Type == ref.ExtPSK {
			n--
		}
		if order {
			for i := n - 1; i > 0; i-- {
				j := perm[i%len(perm)] % (i + 1)
				e[i], e[j] = e[j], e[i]
			}
		}
		ch.Exts = e
	}
	s.K.Probe("unknown values from the client")
}

package engine

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// Store is a pre-shared key store under the simulator's eye.
type Store struct {
	s    *Sim
	m    map[string]mint.PreSharedKey
	Puts []mint.PreSharedKey
	Keys []string // key of each Put
	Gets int

	OnGet func(k string, p mint.PreSharedKey, ok bool)
	OnPut func(k string, p mint.PreSharedKey)
}

func NewStore(s *Sim) *Store { return &Store{s: s, m: map[string]mint.PreSharedKey{}} }

func (st *Store) Get(k string) (mint.PreSharedKey, bool) {
	st.Gets++
	p, ok := st.m[k]
	if st.OnGet != nil {
		st.OnGet(k, p, ok)
	}
	return p, ok
}
func (st *Store) Put(k string, p mint.PreSharedKey) {
	st.s.K.Logf("store put %x", simrt.HashBytes([]byte(k)))
	st.m[k] = p
	st.Puts = append(st.Puts, p)
	st.Keys = append(st.Keys, k)
	if st.OnPut != nil {
		st.OnPut(k, p)
	}
}
func (st *Store) Size() int { return len(st.m) }

func (st *Store) Copy() *Store {
	n := NewStore(st.s)
	for k, v := range st.m {
		n.m[k] = v
	}
	return n
}

const (
	nameA = "a.example.com"
	nameB = "b.example.com"
	nameC = "bb.example.com"
)

// Expect is what the reference negotiation model predicts.
type Expect struct {
	OK         bool
	Why        string // why not
	Suite      mint.CipherSuite
	PSK        bool
	DH         bool
	ALPN       string
	Cert       *mint.Certificate
	ClientAuth bool
	ClientCert *mint.Certificate
	EarlyOffer bool
	Early      bool
	Cookie     bool
}

// Predict is an independent model of what two configurations negotiate; it
// is written from RFC 8446 and mint's documented options, not from its code.
func Predict(c, s *mint.Config) Expect {
	e := Expect{}
	cs, ss := c.CipherSuites, s.CipherSuites
	both := []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384}
	if len(cs) == 0 {
		cs = both
	}
	if len(ss) == 0 {
		ss = both
	}
	groups := func(g []mint.NamedGroup) []mint.NamedGroup {
		if len(g) == 0 {
			return []mint.NamedGroup{mint.P256, mint.P384, mint.FFDHE2048, mint.X25519}
		}
		return g
	}
	schemes := func(g []mint.SignatureScheme) []mint.SignatureScheme {
		if len(g) == 0 {
			return []mint.SignatureScheme{mint.RSA_PSS_SHA256, mint.RSA_PSS_SHA384, mint.RSA_PSS_SHA512, mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.ECDSA_P521_SHA512}
		}
		return g
	}
	modes := c.PSKModes
	if len(modes) == 0 {
		modes = []mint.PSKKeyExchangeMode{mint.PSKModeKE, mint.PSKModeDHEKE}
	}
	canDH := false
	for _, a := range groups(c.Groups) {
		for _, b := range groups(s.Groups) {
			canDH = canDH || a == b
		}
	}
	var cpsk, spsk mint.PreSharedKey
	offered, canPSK := false, false
	if c.PSKs != nil {
		cpsk, offered = c.PSKs.Get(c.ServerName)
	}
	if offered {
		var n []mint.CipherSuite
		for _, x := range cs {
			if hashOf(x) == hashOf(cpsk.CipherSuite) {
				n = append(n, x)
			}
		}
		cs = n
		if s.PSKs != nil {
			spsk, canPSK = s.PSKs.Get(hex.EncodeToString(cpsk.Identity))
			allowed := false
			for _, x := range ss {
				allowed = allowed || x == spsk.CipherSuite
			}
			canPSK = canPSK && allowed
		}
		if canPSK && !bytes.Equal(spsk.Key, cpsk.Key) {
			e.Why = "pre-shared keys differ"
			return e
		}
	}
	if len(cs) == 0 {
		e.Why = "no suite left"
		return e
	}
	ke, dhe := false, false
	for _, m := range modes {
		for _, n := range s.PSKModes {
			ke = ke || m == n && m == mint.PSKModeKE
			dhe = dhe || m == n && m == mint.PSKModeDHEKE
		}
		if len(s.PSKModes) == 0 {
			ke = ke || m == mint.PSKModeKE
			dhe = dhe || m == mint.PSKModeDHEKE
		}
	}
	e.PSK = canPSK && (ke || dhe && canDH)
	e.DH = canDH && (dhe || !e.PSK)
	if !e.PSK && !canDH {
		e.Why = "no common group"
		return e
	}
	if e.PSK {
		for _, x := range cs {
			if x == spsk.CipherSuite {
				e.Suite = x
			}
		}
	} else {
		for _, x := range cs {
			for _, y := range ss {
				if x == y && e.Suite == 0 {
					e.Suite = x
				}
			}
		}
	}
	if e.Suite == 0 {
		e.Why = "no common suite"
		return e
	}
	e.EarlyOffer = offered && c.AllowEarlyData
	e.Cookie = s.RequireCookie && s.CookieHandler == nil
	e.Early = e.EarlyOffer && e.PSK && s.AllowEarlyData && !e.Cookie
	for _, p := range c.NextProtos {
		if e.PSK && p != spsk.NextProto {
			continue
		}
		for _, q := range s.NextProtos {
			if p == q && e.ALPN == "" {
				e.ALPN = p
			}
		}
	}
	if e.ALPN == "" && e.PSK && spsk.IsResumption && spsk.NextProto != "" && len(c.NextProtos) > 0 {
		e.Why = "resumption with another application protocol"
		return e
	}
	if e.PSK {
		e.OK = true
		return e
	}
	pick := func(certs []*mint.Certificate, name string, sch []mint.SignatureScheme) *mint.Certificate {
		for _, x := range certs {
			ok := name == ""
			for _, n := range x.Chain[0].DNSNames {
				ok = ok || n == name
			}
			if !ok {
				continue
			}
			for _, sc := range sch {
				if schemeFits(sc, x) {
					return x
				}
			}
		}
		return nil
	}
	e.Cert = pick(s.Certificates, c.ServerName, schemes(c.SignatureSchemes))
	if e.Cert == nil {
		e.Why = "no certificate for the name and schemes"
		return e
	}
	if s.RequireClientAuth {
		e.ClientAuth = true
		e.ClientCert = pick(c.Certificates, "", schemes(s.SignatureSchemes))
	}
	e.OK = true
	return e
}

func hashOf(c mint.CipherSuite) int {
	switch c {
	case mint.TLS_AES_128_GCM_SHA256:
		return 256
	case mint.TLS_AES_256_GCM_SHA384:
		return 384
	}
	return 0
}

func schemeFits(sc mint.SignatureScheme, c *mint.Certificate) bool {
	switch k := c.PrivateKey.(type) {
	case *rsa.PrivateKey:
		switch sc {
		case mint.RSA_PSS_SHA256, mint.RSA_PSS_SHA384, mint.RSA_PSS_SHA512:
			return true
		}
	case *ecdsa.PrivateKey:
		switch k.Curve.Params().BitSize {
		case 256:
			return sc == mint.ECDSA_P256_SHA256
		case 384:
			return sc == mint.ECDSA_P384_SHA384
		case 521:
			return sc == mint.ECDSA_P521_SHA512
		}
	}
	return false
}

// Gen says what a generated pair of configurations may contain.
type Gen struct {
	DTLS     bool
	Incompat bool // may be incompatible
	PSK      int  // per cent
	Resume   int  // per cent of PSKs marked as resumption
	Early    int  // per cent, given a PSK
	Auth     int  // per cent
	Cookie   int  // per cent
	Tickets  int  // per cent
	NB       int  // per cent per side; -1: never
	SrvNB    int  // if non-zero, for the server instead (per cent)
	Default  int  // per cent: library defaults for suites and groups
	BigCerts bool
	Slow     bool // may use slow groups
}

// Conf is a generated pair.
type Conf struct {
	C, S    *mint.Config
	CStore  *Store
	SStore  *Store
	E       Expect
	PSK     *mint.PreSharedKey
	Cookies mint.CookieProtector
}

func (s *Sim) pct(n int) bool { return n > 0 && s.C.Prob("cfg", n, 100) }

func shuffle[T any](s *Sim, x []T) []T {
	y := append([]T{}, x...)
	for i := len(y) - 1; i > 0; i-- {
		j := i - s.Cfg(i+1)
		y[i], y[j] = y[j], y[i]
	}
	return y
}

func (s *Sim) suites(incompat bool) []mint.CipherSuite {
	switch s.CfgW(3, 2, 2, 2) {
	case 1:
		return []mint.CipherSuite{mint.TLS_AES_256_GCM_SHA384, mint.TLS_AES_128_GCM_SHA256}
	case 2:
		if incompat {
			return []mint.CipherSuite{mint.TLS_AES_256_GCM_SHA384}
		}
		return []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384}
	case 3:
		if incompat {
			return []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256}
		}
		return nil
	}
	return nil
}

var finiteGroups = []mint.NamedGroup{mint.FFDHE2048, mint.FFDHE3072, mint.FFDHE4096, mint.FFDHE6144, mint.FFDHE8192}

func (s *Sim) groups(g Gen) []mint.NamedGroup {
	switch s.CfgW(6, 3, 2, 1, 1, 1) {
	case 1:
		return []mint.NamedGroup{mint.P256, mint.X25519}
	case 2:
		return []mint.NamedGroup{mint.P256}
	case 3:
		if g.Slow {
			return []mint.NamedGroup{mint.P384, mint.X25519}
		}
	case 4:
		if g.Slow {
			return []mint.NamedGroup{mint.P521, mint.P256}
		}
	case 5:
		if g.Slow {
			return []mint.NamedGroup{finiteGroups[s.CfgW(12, 3, 2, 1, 1)], mint.X25519}
		}
		return []mint.NamedGroup{mint.X25519, mint.P256}
	}
	return []mint.NamedGroup{mint.X25519}
}

var allSchemes = []mint.SignatureScheme{mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.ECDSA_P521_SHA512, mint.RSA_PSS_SHA256, mint.RSA_PSS_SHA384, mint.RSA_PSS_SHA512}

func (s *Sim) schemes(incompat bool) []mint.SignatureScheme {
	switch s.CfgW(4, 2, 2) {
	case 1:
		return shuffle(s, allSchemes)
	case 2:
		if incompat {
			x := shuffle(s, allSchemes)
			return x[:1+s.Cfg(len(x))]
		}
	}
	return nil
}

func (s *Sim) protos() []string {
	all := []string{"h2", "http/1.1", "sim-proto-zz"}
	switch s.CfgW(3, 2, 2, 1, 1) {
	case 4:
		// names that are easily taken for one another, and a long list
		odd := []string{"h2", "h2c", "H2", "h", "http/1.0", strings.Repeat("p", 255), strings.Repeat("p", 254), "\x00\xff", "h2 "}
		l := shuffle(s, odd)[:1+s.Cfg(len(odd))]
		for n := s.CfgW(3, 1) * s.Cfg(60); n > 0; n-- {
			l = append(l, fmt.Sprintf("sim-%d", n))
		}
		if s.CfgP(1, 2) {
			l = append(l, all[s.Cfg(3)])
		}
		return l
	case 1:
		return shuffle(s, all)
	case 2:
		return []string{all[s.Cfg(3)]}
	case 3:
		x := shuffle(s, all)
		return x[:2]
	}
	return nil
}

var algs = []string{"p256", "p384", "p521", "rsa"}

func (s *Sim) alg() string {
	return algs[s.CfgW(8, 2, 1, 3)]
}

// GenConf draws a pair of configurations and predicts the outcome.
func (s *Sim) GenConf(g Gen) *Conf {
	for try := 0; ; try++ {
		cf := s.genConf(g)
		cf.E = Predict(cf.C, cf.S)
		if cf.E.OK || g.Incompat || try > 20 {
			s.describe(cf)
			return cf
		}
	}
}

func (s *Sim) genConf(g Gen) *Conf {
	cf := &Conf{}
	c, v := &mint.Config{}, &mint.Config{}
	cf.C, cf.S = c, v
	c.UseDTLS, v.UseDTLS = g.DTLS, g.DTLS
	c.NonBlocking = s.pct(g.NB)
	nb := g.NB
	if g.SrvNB != 0 {
		nb = g.SrvNB
	}
	v.NonBlocking = s.pct(nb)
	c.ServerName = []string{nameA, nameB, nameC}[s.CfgW(4, 1, 1)]
	c.RootCAs = Roots("root")
	clock := func() time.Time { return time.Now().Add(simrt.Skew()) }
	c.Time = clock
	v.Time = clock
	if s.pct(g.Default) && g.Slow {
		// library defaults
	} else {
		c.CipherSuites, v.CipherSuites = s.suites(g.Incompat), s.suites(g.Incompat)
		c.Groups, v.Groups = s.groups(g), s.groups(g)
	}
	c.SignatureSchemes, v.SignatureSchemes = s.schemes(g.Incompat), s.schemes(g.Incompat)
	c.NextProtos, v.NextProtos = s.protos(), s.protos()
	// server certificates
	n := 1 + s.CfgW(4, 2, 1)
	have := map[string]bool{}
	for i := 0; i < n; i++ {
		base := "a"
		if c.ServerName != nameA && !(g.Incompat && s.CfgP(1, 6)) || i > 0 && s.CfgP(1, 2) {
			base = "b"
		}
		nm := base + "." + s.alg()
		if base == "a" && s.CfgP(1, 6) {
			nm = "a.inter"
		}
		if base == "a" && g.BigCerts && s.CfgP(1, 3) {
			nm = []string{"a.big", "a.huge", "a.giant"}[s.CfgW(9, 3, 1)]
		}
		if !have[nm] {
			have[nm] = true
			v.Certificates = append(v.Certificates, PKI[nm])
		}
	}
	if s.pct(g.Auth) {
		v.RequireClientAuth = true
	}
	if s.pct(g.Auth) || v.RequireClientAuth && s.CfgP(1, 2) {
		m := 1 + s.CfgW(4, 1)
		for i := 0; i < m; i++ {
			nm := "client." + s.alg()
			if g.BigCerts && s.CfgP(1, 20) {
				nm = "client.giant"
			}
			c.Certificates = append(c.Certificates, PKI[nm])
		}
	}
	cf.CStore, cf.SStore = NewStore(s), NewStore(s)
	c.PSKs, v.PSKs = cf.CStore, cf.SStore
	if s.pct(g.Tickets) {
		v.SendSessionTickets = true
		v.TicketLifetime = uint32(3600 + s.Cfg(3600))
		v.EarlyDataLifetime = 3600
		if s.CfgP(1, 3) {
			v.TicketLen = 16 + s.Cfg(200)
			if s.CfgP(1, 4) { // more than a record or datagram takes
				v.TicketLen = 1 + s.Cfg(map[bool]int{true: 5000, false: 40000}[g.DTLS])
			}
		}
	}
	if s.pct(g.PSK) {
		k := mint.PreSharedKey{
			CipherSuite:  []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384}[s.Cfg(2)],
			IsResumption: s.pct(g.Resume),
			Identity:     Pattern(uint32(77+s.Cfg(100)), 0, 8+s.Cfg(40)),
			Key:          Pattern(uint32(777+s.Cfg(1000)), 64, 16+s.Cfg(48)),
			ReceivedAt:   time.Now(),
			ExpiresAt:    time.Now().Add(2 * time.Hour),
			TicketAgeAdd: uint32(s.Cfg(1<<30))<<2 | uint32(s.Cfg(4)),
		}
		switch s.CfgW(12, 1, 1, 1, 1) {
		case 1:
			k.Identity = Pattern(77, 0, 1+s.Cfg(3))
		case 2: // more than a record or datagram takes
			k.Identity = Pattern(77, 0, 200+s.Cfg(map[bool]int{true: 4000, false: 20000}[g.DTLS]))
		case 3:
			k.Key = Pattern(777, 64, 1+s.Cfg(3))
		case 4: // more than a block of the hash functions
			k.Key = Pattern(777, 64, 64+s.Cfg(300))
		}
		ps := v.NextProtos
		if len(ps) > 0 && s.CfgP(2, 3) {
			k.NextProto = ps[s.Cfg(len(ps))]
		}
		cf.PSK = &k
		cf.CStore.m[c.ServerName] = k
		if !(s.CfgP(1, 6)) {
			cf.SStore.m[hex.EncodeToString(k.Identity)] = k
		}
		if g.Incompat && s.CfgP(1, 8) {
			k2 := k
			k2.Key = append([]byte{1}, k.Key[1:]...)
			cf.SStore.m[hex.EncodeToString(k.Identity)] = k2
		}
		switch s.CfgW(3, 1, 1, 1) {
		case 1:
			c.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeKE}
		case 2:
			c.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
		case 3:
			c.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE, mint.PSKModeKE}
		}
		switch s.CfgW(6, 1, 1, 1) {
		case 1:
			v.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeKE}
		case 2:
			v.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
		case 3:
			v.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE, mint.PSKModeKE}
		}
		if s.pct(g.Early) {
			c.AllowEarlyData = true
		}
	}
	if s.pct(g.Early) {
		v.AllowEarlyData = true
	}
	if s.pct(g.Cookie) {
		v.RequireCookie = true
		if v.NonBlocking || s.CfgP(2, 3) {
			p, err := mint.NewDefaultCookieProtector()
			if err != nil {
				panic(err)
			}
			v.CookieProtector = p
			cf.Cookies = p
		}
	}
	return cf
}

func (s *Sim) describe(cf *Conf) {
	c, v, e := cf.C, cf.S, cf.E
	var certs []string
	for _, x := range v.Certificates {
		certs = append(certs, certName(x.Chain[0]))
	}
	s.Param("client name=%s nb=%v suites=%v groups=%v protos=%v early=%v certs=%d", c.ServerName, c.NonBlocking, c.CipherSuites, c.Groups, c.NextProtos, c.AllowEarlyData, len(c.Certificates))
	s.Param("server certs=%v nb=%v suites=%v groups=%v protos=%v early=%v auth=%v cookie=%v tickets=%v", certs, v.NonBlocking, v.CipherSuites, v.Groups, v.NextProtos, v.AllowEarlyData, v.RequireClientAuth, v.RequireCookie, v.SendSessionTickets)
	if cf.PSK != nil {
		s.Param("psk suite=%v resumption=%v modes=%v, server %v, proto=%q", cf.PSK.CipherSuite, cf.PSK.IsResumption, c.PSKModes, v.PSKModes, cf.PSK.NextProto)
	}
	s.Param("expect ok=%v (%s) suite=%v psk=%v dh=%v alpn=%q early=%v", e.OK, e.Why, e.Suite, e.PSK, e.DH, e.ALPN, e.Early)
}

// CheckView compares one completed endpoint with the prediction.
func (s *Sim) CheckView(p *Peer, e Expect) bool {
	cs := p.Conn.ConnectionState()
	bad := func(what string, got, want interface{}) bool {
		s.Fail("view "+what, "%s completed with %s=%v, the configurations allow only %v", p.Name, what, got, want)
		return false
	}
	if !e.OK {
		return bad("completion", "completed", "failure: "+e.Why)
	}
	if cs.CipherSuite.Suite != e.Suite {
		return bad("suite", cs.CipherSuite.Suite, e.Suite)
	}
	if cs.NextProto != e.ALPN {
		return bad("alpn", fmt.Sprintf("%q", cs.NextProto), fmt.Sprintf("%q", e.ALPN))
	}
	if cs.UsingPSK != e.PSK {
		return bad("psk", cs.UsingPSK, e.PSK)
	}
	if cs.UsingEarlyData != e.Early {
		return bad("early-data", cs.UsingEarlyData, e.Early)
	}
	var want []*x509.Certificate
	if p.Client {
		if e.Cert != nil {
			want = e.Cert.Chain
		}
	} else if e.ClientCert != nil {
		want = e.ClientCert.Chain
	}
	if !sameCerts(cs.PeerCertificates, want) {
		return bad("peer-certificates", describeCerts(cs.PeerCertificates), describeCerts(want))
	}
	return true
}

// keyShareSent tells whether a server's hello among these messages names a key
// share; ok: there was a whole one.
func keyShareSent(b []byte) (share, ok bool) {
	for len(b) >= 4 {
		n := 4 + int(b[1])<<16 + int(b[2])<<8 + int(b[3])
		if n > len(b) {
			return false, false
		}
		if b[0] == ref.HTServerHello {
			if sh, err := ref.ParseServerHello(b[4:n]); err == nil && sh.Random != ref.HRRRandom() {
				_, share = sh.Exts.Find(ref.ExtKeyShare)
				return share, true
			}
		}
		b = b[n:]
	}
	return false, false
}

// checkDH compares the key exchange of a server's hello with the one that the
// configurations lead to.
func (s *Sim) checkDH(clear []byte, e Expect) {
	share, ok := keyShareSent(clear)
	if !ok || s.Failed() {
		return
	}
	s.K.Probe(fmt.Sprintf("psk=%v dh=%v", e.PSK, e.DH))
	if share != e.DH {
		s.Fail("view key-exchange", "both completed with key exchange=%v, the configurations allow only %v (psk=%v)", share, e.DH, e.PSK)
	}
}

func sameCerts(a, b []*x509.Certificate) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].Raw, b[i].Raw) {
			return false
		}
	}
	return true
}

func describeCerts(a []*x509.Certificate) string {
	s := "["
	for _, c := range a {
		s += certName(c) + " "
	}
	return s + "]"
}

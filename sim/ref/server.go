package ref

import (
	"crypto"
	"crypto/x509"
)

// ServerConfig configures a reference server.
type ServerConfig struct {
	CRExts   Exts  // more extensions of a CertificateRequest
	CRSigs   []int // more signature schemes there, which are not for use
	NSTExts  Exts  // more extensions of tickets
	Suites   []int
	Groups   []int
	Sigs     []int // offered in a certificate request
	ALPN     []string
	PSKs     []PSK
	Modes    []int
	Early    bool // accept early data
	Chain    [][]byte
	Key      crypto.Signer
	Auth     bool // request a client certificate
	Cookie   []byte
	HRRSuite int // what the retry says instead of the suite chosen
	HRR      int // retries: 0 none, 1 with the cookie
	Verify   func(chain []*x509.Certificate) error
	EditSH   func(sh *ServerHello)
	EditEE   func(ee Exts) Exts
	EditHRR  func(sh *ServerHello)
	Scheme   int
	Rare     int // 1: a secret that begins with a zero byte, 2: such a share
	// for hostile servers
	SignOver func(transcript []byte) []byte
	SkipCert bool
	SkipCV   bool
	SkipFin  bool
	BadFin   bool
	ForcePSK *PSK // key schedule with this key whatever was offered
	PreSH    func(c *Conn)
	PreFin   func(c *Conn)
	NoDH     bool
	AnyMode  bool                  // whatever key exchange modes the client lists
	AnySuite int                   // this suite, listed by the client or not
	Hello    func(ch *ClientHello) // sees each hello
	ChooseID int
}

func (c *Conn) ServerHandshake(cfg *ServerConfig) error {
	c.NSTExts = cfg.NSTExts
	err := c.server(cfg)
	if err != nil {
		return c.report(err)
	}
	c.Done = true
	return nil
}

func (c *Conn) parseHello(m []byte) (*ClientHello, error) {
	ch, err := ParseClientHello(m[4:], false)
	if err != nil {
		return nil, fail(AlertDecode, "client hello: %v", err)
	}
	if ch.Version != 0x0303 || len(ch.Comp) != 1 || ch.Comp[0] != 0 || len(ch.SessionID) != 0 && len(ch.SessionID) != 32 && len(ch.SessionID) > 32 {
		return nil, fail(AlertIllegal, "client hello fields")
	}
	for i, x := range ch.Exts {
		if x.Type == ExtPSK && i != len(ch.Exts)-1 {
			return nil, fail(AlertIllegal, "pre_shared_key is not last")
		}
	}
	v, ok := ch.Exts.Find(ExtVersions)
	r := &rd{b: v}
	if !ok || !has(parseU16s(r.v8()), 0x0304) || r.done() != nil {
		return nil, fail(AlertVersion, "versions %x", v)
	}
	_, g := ch.Exts.Find(ExtGroups)
	_, k := ch.Exts.Find(ExtKeyShare)
	_, p := ch.Exts.Find(ExtPSK)
	_, pm := ch.Exts.Find(ExtPSKModes)
	_, sa := ch.Exts.Find(ExtSigAlgs)
	if g != k || p && !pm || !p && !(sa && g) {
		return nil, fail(AlertMissingExt, "client hello lacks extensions")
	}
	return ch, nil
}

func (c *Conn) server(cfg *ServerConfig) error {
	m, err := c.expect(HTClientHello)
	if err != nil {
		return err
	}
	ch, err := c.parseHello(m)
	if err != nil {
		return err
	}
	if cfg.Hello != nil {
		cfg.Hello(ch)
	}
	c.tr = append(c.tr, m...)
	if err := c.boundary(); err != nil {
		return err
	}
	pick := func(ch *ClientHello, hash int) int {
		if cfg.AnySuite != 0 {
			return cfg.AnySuite
		}
		for _, s := range cfg.Suites {
			if has(ch.Suites, s) && (hash < 0 || int(suiteHash(s)) == hash) {
				return s
			}
		}
		return 0
	}
	_, earlyOffered := ch.Exts.Find(ExtEarly)
	prefix := []byte{}
	if cfg.HRR > 0 {
		c.suite = pick(ch, -1)
		if c.suite == 0 {
			return fail(AlertHSFail, "no suite")
		}
		hrr := &ServerHello{Version: 0x0303, Random: hrrRandom, SessionID: ch.SessionID, Suite: c.suite,
			Exts: Exts{{ExtVersions, u16(0x0304)}, {ExtCookie, V16(cfg.Cookie)}}}
		if cfg.EditHRR != nil {
			cfg.EditHRR(hrr)
		}
		mh := c.h()
		if cfg.HRRSuite != 0 {
			hrr.Suite, mh = cfg.HRRSuite, suiteHash(cfg.HRRSuite)
		}
		hm := Msg(HTServerHello, hrr.Marshal())
		c.tr = Msg(HTMessageHash, hsum(mh, c.tr))
		c.Queue("HRR", hm)
		prefix = append(prefix, c.tr...)
		if err := c.Flush(); err != nil {
			return err
		}
		if c.Rec.CCS {
			c.SendRaw([]byte{RTCCS, 3, 3, 0, 1, 1})
		}
		c.Res.Retried = true
		c.skipHS = earlyOffered
		if m, err = c.expect(HTClientHello); err != nil {
			return err
		}
		ch1 := ch
		if ch, err = c.parseHello(m); err != nil {
			return err
		}
		if cfg.Hello != nil {
			cfg.Hello(ch)
		}
		ck, ok := ch.Exts.Find(ExtCookie)
		if !ok || string(ck) != string(V16(cfg.Cookie)) {
			return fail(AlertIllegal, "cookie %x", ck)
		}
		if err := sameHello(ch1, ch, c.suite); err != nil && cfg.HRRSuite == 0 {
			return err
		}
		c.tr = append(c.tr, m...)
		if err := c.boundary(); err != nil {
			return err
		}
		earlyOffered = false
	}
	c.Res.PeerHello = ch
	if d, ok := ch.Exts.Find(ExtSNI); ok {
		r := &rd{b: d}
		l := &rd{b: r.v16()}
		if t := l.u8(); t == 0 {
			c.Res.SNI = string(l.v16())
		}
	}
	// pre-shared keys
	var psk *PSK
	if d, ok := ch.Exts.Find(ExtPSK); ok && len(cfg.PSKs) > 0 {
		r := &rd{b: d}
		ids, bs := r.v16(), r.v16()
		if r.done() != nil {
			return fail(AlertDecode, "pre_shared_key")
		}
		var modes []int
		pm, _ := ch.Exts.Find(ExtPSKModes)
		q := &rd{b: pm}
		for _, x := range q.v8() {
			modes = append(modes, int(x))
		}
		trunc := m[:len(m)-len(bs)-2]
		ri, rb := &rd{b: ids}, &rd{b: bs}
		for i := 0; len(ri.b) > 0 && !ri.bad && psk == nil; i++ {
			id := ri.v16()
			ri.u32()
			b := rb.v8()
			for j := range cfg.PSKs {
				p := &cfg.PSKs[j]
				if string(p.ID) != string(id) || psk != nil {
					continue
				}
				if pick(ch, int(suiteHash(p.Suite))) == 0 {
					continue
				}
				if !equal(b, binder(p, prefix, trunc)) {
					return fail(AlertDecrypt, "binder of identity %d", i)
				}
				ok := cfg.AnyMode
				for _, mo := range cfg.Modes {
					ok = ok || has(modes, mo)
				}
				if !ok {
					continue
				}
				psk = p
				c.Res.PSK = i
			}
		}
		if ri.bad || rb.bad {
			return fail(AlertDecode, "pre_shared_key lists")
		}
	}
	hash := -1
	if psk != nil {
		hash = int(suiteHash(psk.Suite))
	}
	suite := pick(ch, hash)
	if cfg.HRRSuite != 0 {
		suite = c.suite
	}
	if suite == 0 {
		return fail(AlertHSFail, "no suite")
	}
	if c.suite != 0 && c.suite != suite {
		return fail(AlertIllegal, "suite changed after the retry")
	}
	c.suite = suite
	c.Res.Suite = suite
	// key exchange
	var sh *share
	var dh []byte
	useDH := true
	if psk != nil {
		useDH = has(cfg.Modes, 1)
		if useDH {
			pm, _ := ch.Exts.Find(ExtPSKModes)
			useDH = cfg.AnyMode
			for _, x := range pm[1:] {
				useDH = useDH || x == 1
			}
		}
	}
	if useDH && !cfg.NoDH {
		d, _ := ch.Exts.Find(ExtKeyShare)
		r := &rd{b: d}
		l := &rd{b: r.v16()}
		for len(l.b) > 0 && !l.bad {
			g := l.u16()
			pub := l.v16()
			if sh == nil && has(cfg.Groups, g) && !l.bad {
				if cfg.Rare > 0 {
					var peer []byte
					if cfg.Rare == 1 {
						peer = pub
					}
					sh, err = rareShare(g, peer)
				} else {
					sh, err = newShare(g)
				}
				if err != nil {
					return err
				}
				if dh, err = sh.agree(pub); err != nil {
					return fail(AlertIllegal, "key share: %v", err)
				}
				c.Res.Group = g
			}
		}
		if sh == nil {
			return fail(AlertHSFail, "no group")
		}
	}
	// application protocol
	if d, ok := ch.Exts.Find(ExtALPN); ok {
		offered, err := parseALPN(d)
		if err != nil {
			return err
		}
		for _, p := range cfg.ALPN {
			for _, q := range offered {
				if p == q && c.Res.ALPN == "" {
					c.Res.ALPN = p
				}
			}
		}
		if c.Res.ALPN == "" && len(cfg.ALPN) > 0 {
			return fail(AlertNoALPN, "no application protocol")
		}
	}
	c.Res.Early = earlyOffered && cfg.Early && psk != nil && c.Res.PSK == 0 && c.Res.ALPN == psk.ALPN
	var ek *keys
	if c.Res.Early {
		ek = newKeys(suite, earlySecret(psk, c.tr))
	}
	out := &ServerHello{Version: 0x0303, SessionID: ch.SessionID, Suite: suite, Exts: Exts{{ExtVersions, u16(0x0304)}}}
	copy(out.Random[:], randBytes(32))
	if sh != nil {
		c.MyShare = cat(u16(sh.group), V16(sh.pub))
		out.Exts = append(out.Exts, Ext{ExtKeyShare, c.MyShare})
	}
	var pk []byte
	if psk != nil {
		out.Exts = append(out.Exts, Ext{ExtPSK, u16(c.Res.PSK)})
		pk = psk.Key
	}
	if cfg.ForcePSK != nil {
		pk = cfg.ForcePSK.Key
	}
	if cfg.EditSH != nil {
		cfg.EditSH(out)
	}
	if cfg.PreSH != nil {
		cfg.PreSH(c)
	}
	c.Queue("SH", Msg(HTServerHello, out.Marshal()))
	if err := c.Flush(); err != nil {
		return err
	}
	if c.Rec.CCS && !c.Res.Retried {
		c.SendRaw([]byte{RTCCS, 3, 3, 0, 1, 1})
	}
	s := c.secrets(pk, dh)
	if err := c.setOut(newKeys(suite, s.hsS)); err != nil {
		return err
	}
	var ee Exts
	if c.Res.ALPN != "" {
		ee = append(ee, Ext{ExtALPN, alpnBytes([]string{c.Res.ALPN})})
	}
	if c.Res.Early {
		ee = append(ee, Ext{ExtEarly, nil})
	}
	if cfg.EditEE != nil {
		ee = cfg.EditEE(ee)
	}
	c.Queue("EE", Msg(HTEncExt, ee.Bytes()))
	if psk == nil && cfg.ForcePSK == nil {
		if cfg.Auth {
			c.Queue("CR", Msg(HTCertReq, cat(V8(nil), append(append(Exts{}, cfg.CRExts...), Ext{ExtSigAlgs, V16(u16s(append(append([]int{}, cfg.CRSigs...), cfg.Sigs...)))}).Bytes())))
		}
		if !cfg.SkipCert {
			c.SentCert = certMsg(nil, cfg.Chain)
			c.Queue("SCERT", c.SentCert)
		}
		if !cfg.SkipCV {
			scheme := cfg.Scheme
			if scheme == 0 {
				d, _ := ch.Exts.Find(ExtSigAlgs)
				r := &rd{b: d}
				for _, x := range parseU16s(r.v16()) {
					if scheme == 0 && sigFits(x, cfg.Key.Public()) {
						scheme = x
					}
				}
				if scheme == 0 {
					return fail(AlertHSFail, "no signature scheme")
				}
			}
			over := c.tr
			if cfg.SignOver != nil {
				over = cfg.SignOver(over)
			}
			c.SentCV = Msg(HTCertVerify, cat(u16(scheme), V16(SignCV(true, c.h(), over, scheme, cfg.Key))))
			c.Queue("SCV", c.SentCV)
		}
	}
	if cfg.PreFin != nil {
		cfg.PreFin(c)
	}
	if !cfg.SkipFin {
		fin := c.finished(s.hsS)
		if cfg.BadFin {
			fin[0] ^= 1
		}
		c.Queue("SFIN", Msg(HTFinished, fin))
	}
	c.appSecrets(s)
	if err := c.setOut(newKeys(suite, s.apS)); err != nil {
		return err
	}
	if c.Res.Early {
		c.in = ek
		for {
			t, p, err := c.ReadRecord()
			if err != nil {
				return err
			}
			if t == RTApp {
				c.Res.EarlyData = append(c.Res.EarlyData, p...)
				continue
			}
			if t == RTAlert {
				return c.alert(p)
			}
			c.hs = append(c.hs, p...)
			mt, m, ok := c.splitMsg()
			if !ok {
				continue
			}
			if mt != HTEndEarly || len(m) != 4 {
				return fail(AlertUnexpected, "message %d where end_of_early_data was due", mt)
			}
			c.tr = append(c.tr, m...)
			break
		}
		c.in = nil
	}
	if err := c.setIn(newKeys(suite, s.hsC)); err != nil {
		return err
	}
	c.skip = earlyOffered && !c.Res.Early
	if psk == nil && cfg.Auth {
		if m, err = c.expect(HTCert); err != nil {
			return err
		}
		if c.Res.PeerCerts, err = parseCert(m); err != nil {
			return err
		}
		c.GotCert = m
		c.tr = append(c.tr, m...)
		if len(c.Res.PeerCerts) > 0 {
			if m, err = c.expect(HTCertVerify); err != nil {
				return err
			}
			c.GotCV = m
			scheme, sig, err := parseCV(m)
			if err != nil {
				return err
			}
			if !has(cfg.Sigs, scheme) {
				return fail(AlertIllegal, "signature scheme %04x was not offered", scheme)
			}
			if !verifyCV(false, c.h(), c.tr, scheme, c.Res.PeerCerts[0].PublicKey, sig) {
				return fail(AlertDecrypt, "client signature")
			}
			if cfg.Verify != nil {
				if err := cfg.Verify(c.Res.PeerCerts); err != nil {
					return fail(AlertBadCert, "%v", err)
				}
			}
			c.tr = append(c.tr, m...)
		}
	}
	if m, err = c.expect(HTFinished); err != nil {
		return err
	}
	if !equal(m[4:], c.finished(s.hsC)) {
		return fail(AlertDecrypt, "client Finished")
	}
	c.tr = append(c.tr, m...)
	c.resume = derive(c.h(), c.master, "res master", c.tr)
	if err := c.setIn(newKeys(suite, s.apC)); err != nil {
		return err
	}
	c.hsDone = true
	return nil
}

// sameHello checks that a second hello differs only where it may.
func sameHello(a, b *ClientHello, suite int) error {
	if a.Random != b.Random || string(a.SessionID) != string(b.SessionID) || a.Version != b.Version {
		return fail(AlertIllegal, "second hello has other random, version or session id")
	}
	if !has(b.Suites, suite) {
		return fail(AlertIllegal, "second hello lacks the suite of the retry")
	}
	for _, x := range b.Exts {
		if x.Type == ExtEarly {
			return fail(AlertIllegal, "early data offered after a retry")
		}
		if x.Type == ExtCookie || x.Type == ExtPSK {
			continue
		}
		y, ok := a.Exts.Find(x.Type)
		if !ok || string(y) != string(x.Data) {
			return fail(AlertIllegal, "second hello changes extension %d", x.Type)
		}
	}
	for _, x := range a.Exts {
		if _, ok := b.Exts.Find(x.Type); !ok && x.Type != ExtEarly && x.Type != ExtPSK {
			return fail(AlertIllegal, "second hello drops extension %d", x.Type)
		}
	}
	return nil
}

package ref

import (
	"crypto"
	"crypto/x509"
)

// ClientConfig configures a reference client.
type ClientConfig struct {
	ServerName string
	Suites     []int
	Groups     []int
	Shares     []int // subset of Groups; nil: the first
	Sigs       []int
	ALPN       []string
	PSKs       []PSK
	Modes      []int // 0 PSK only, 1 with (EC)DHE
	Early      [][]byte
	OfferEarly bool
	SessionID  []byte
	Chain      [][]byte
	Key        crypto.Signer
	Verify     func(chain []*x509.Certificate) error
	EditCH     func(ch *ClientHello, second bool)
	BinderLen  int                                  // cut binders to this many bytes
	EditSigned func(msg []byte, second bool) []byte // after the binders
	// MidHello runs after the first flight, before the answer is read.
	MidHello func(c *Conn)
	// SkipCert and friends are for hostile clients
	NoCert     bool // answer a request with nothing at all
	SigScheme  int  // 0: choose
	Rare       bool // shares that begin with a zero byte
	SignOver   func(transcript []byte) []byte
	BadFin     bool
	BeforeFin  func(c *Conn)
	EarlyAfter func(c *Conn) // runs once the verdict on early data is known
}

type helloState struct {
	ch     *ClientHello
	msg    []byte
	shares map[int]*share
}

func (c *Conn) clientHello(cfg *ClientConfig, st *helloState, prefix, cookie []byte, group int) error {
	second := st.ch != nil
	if !second {
		st.ch = &ClientHello{Version: 0x0303, SessionID: cfg.SessionID, Suites: cfg.Suites, Comp: []byte{0}}
		copy(st.ch.Random[:], randBytes(32))
		st.shares = map[int]*share{}
		sh := cfg.Shares
		if sh == nil && len(cfg.Groups) > 0 {
			sh = cfg.Groups[:1]
		}
		for _, g := range sh {
			k, err := newShare(g)
			if cfg.Rare {
				k, err = rareShare(g, nil)
			}
			if err != nil {
				return err
			}
			st.shares[g] = k
		}
		if cfg.Shares == nil {
			cfg.Shares = sh
		}
	} else if group != 0 {
		k, err := newShare(group)
		if err != nil {
			return err
		}
		st.shares = map[int]*share{group: k}
		cfg.Shares = []int{group}
	}
	ch := st.ch
	ch.Exts = nil
	if cfg.ServerName != "" {
		ch.Exts = append(ch.Exts, Ext{ExtSNI, V16(cat([]byte{0}, V16([]byte(cfg.ServerName))))})
	}
	ch.Exts = append(ch.Exts, Ext{ExtVersions, V8(u16s([]int{0x0304}))})
	if len(cfg.Groups) > 0 {
		ch.Exts = append(ch.Exts, Ext{ExtGroups, V16(u16s(cfg.Groups))})
		var l []byte
		for _, g := range cfg.Shares {
			l = cat(l, u16(g), V16(st.shares[g].pub))
		}
		ch.Exts = append(ch.Exts, Ext{ExtKeyShare, V16(l)})
	}
	if len(cfg.Sigs) > 0 {
		ch.Exts = append(ch.Exts, Ext{ExtSigAlgs, V16(u16s(cfg.Sigs))})
	}
	if len(cfg.ALPN) > 0 {
		ch.Exts = append(ch.Exts, Ext{ExtALPN, alpnBytes(cfg.ALPN)})
	}
	if cookie != nil {
		ch.Exts = append(ch.Exts, Ext{ExtCookie, V16(cookie)})
	}
	if len(cfg.PSKs) > 0 {
		var m []byte
		for _, x := range cfg.Modes {
			m = append(m, byte(x))
		}
		ch.Exts = append(ch.Exts, Ext{ExtPSKModes, V8(m)})
		if cfg.OfferEarly && !second {
			ch.Exts = append(ch.Exts, Ext{ExtEarly, nil})
		}
		var ids, bs []byte
		for _, p := range cfg.PSKs {
			ids = cat(ids, V16(p.ID), u32(p.Obfuscated))
			bs = append(bs, V8(cfg.cut(make([]byte, suiteHash(p.Suite).Size())))...)
		}
		ch.Exts = append(ch.Exts, Ext{ExtPSK, cat(V16(ids), V16(bs))})
	}
	if cfg.EditCH != nil {
		cfg.EditCH(ch, second)
	}
	msg := Msg(HTClientHello, ch.Marshal())
	if d, ok := ch.Exts.Find(ExtPSK); ok && len(cfg.PSKs) > 0 && len(ch.Exts) > 0 && ch.Exts[len(ch.Exts)-1].Type == ExtPSK {
		r := &rd{b: d}
		ids := r.v16()
		bl := len(d) - len(ids) - 2
		trunc := msg[:len(msg)-bl]
		var bs []byte
		for i := range cfg.PSKs {
			bs = append(bs, V8(cfg.cut(binder(&cfg.PSKs[i], prefix, trunc)))...)
		}
		if len(bs)+2 == bl {
			msg = cat(trunc, V16(bs))
		}
	}
	if cfg.EditSigned != nil {
		msg = cfg.EditSigned(msg, second)
	}
	st.msg = msg
	return nil
}

func (cfg *ClientConfig) cut(b []byte) []byte {
	if cfg.BinderLen > 0 && cfg.BinderLen < len(b) {
		return b[:cfg.BinderLen]
	}
	return b
}

// Handshake runs a client handshake.
func (c *Conn) ClientHandshake(cfg *ClientConfig) error {
	err := c.client(cfg)
	if err != nil {
		return c.report(err)
	}
	c.Done = true
	return nil
}

func (c *Conn) client(cfg *ClientConfig) error {
	st := &helloState{}
	if err := c.clientHello(cfg, st, nil, nil, 0); err != nil {
		return err
	}
	c.Queue("CH", st.msg)
	if err := c.Flush(); err != nil {
		return err
	}
	offeredEarly := cfg.OfferEarly && len(cfg.PSKs) > 0
	if offeredEarly {
		k := newKeys(cfg.PSKs[0].Suite, earlySecret(&cfg.PSKs[0], c.tr))
		if c.Rec.CCS {
			c.SendRaw([]byte{RTCCS, 3, 3, 0, 1, 1})
		}
		c.out = k
		for _, b := range cfg.Early {
			if err := c.Write(b); err != nil {
				return err
			}
		}
	}
	if cfg.MidHello != nil {
		cfg.MidHello(c)
	}
	m, err := c.expect(HTServerHello)
	if err != nil {
		return err
	}
	sh, perr := ParseServerHello(m[4:])
	if perr != nil {
		return fail(AlertDecode, "server hello: %v", perr)
	}
	if err := c.checkSH(cfg, st, sh); err != nil {
		return err
	}
	hrrSuite := 0
	if sh.Random == hrrRandom {
		hrrSuite = sh.Suite
		c.Res.Retried = true
		c.suite = sh.Suite
		cookie, hasCookie := sh.Exts.Find(ExtCookie)
		ks, hasKS := sh.Exts.Find(ExtKeyShare)
		if !hasCookie && !hasKS {
			return fail(AlertIllegal, "retry that changes nothing")
		}
		for _, x := range sh.Exts {
			if x.Type != ExtCookie && x.Type != ExtKeyShare && x.Type != ExtVersions {
				return fail(AlertUnsupported, "retry with extension %d", x.Type)
			}
		}
		var ck []byte
		if hasCookie {
			r := &rd{b: cookie}
			ck = r.v16()
			if r.done() != nil || len(ck) == 0 {
				return fail(AlertDecode, "bad cookie")
			}
		}
		group := 0
		if hasKS {
			if len(ks) != 2 {
				return fail(AlertDecode, "bad retry group")
			}
			group = int(ks[0])<<8 | int(ks[1])
			if !has(cfg.Groups, group) || has(cfg.Shares, group) {
				return fail(AlertIllegal, "retry for group %d", group)
			}
		}
		if err := c.boundary(); err != nil {
			return err
		}
		c.out = nil
		c.tr = cat(Msg(HTMessageHash, hsum(c.h(), c.tr)), m)
		if err := c.clientHello(cfg, st, c.tr, ck, group); err != nil {
			return err
		}
		if c.Rec.CCS && !offeredEarly {
			c.SendRaw([]byte{RTCCS, 3, 3, 0, 1, 1})
		}
		c.Queue("CH2", st.msg)
		if err := c.Flush(); err != nil {
			return err
		}
		offeredEarly = false
		if m, err = c.expect(HTServerHello); err != nil {
			return err
		}
		if sh, perr = ParseServerHello(m[4:]); perr != nil {
			return fail(AlertDecode, "server hello: %v", perr)
		}
		if err := c.checkSH(cfg, st, sh); err != nil {
			return err
		}
		if sh.Random == hrrRandom {
			return fail(AlertUnexpected, "second retry")
		}
		if sh.Suite != hrrSuite {
			return fail(AlertIllegal, "suite changed after the retry")
		}
	}
	c.suite = sh.Suite
	c.Res.Suite = sh.Suite
	c.tr = append(c.tr, m...)
	var psk, dh []byte
	for _, x := range sh.Exts {
		switch x.Type {
		case ExtVersions:
		case ExtPSK:
			if len(x.Data) != 2 {
				return fail(AlertDecode, "bad selected identity")
			}
			i := int(x.Data[0])<<8 | int(x.Data[1])
			if i >= len(cfg.PSKs) || suiteHash(cfg.PSKs[i].Suite) != c.h() {
				return fail(AlertIllegal, "selected identity %d", i)
			}
			c.Res.PSK = i
			psk = cfg.PSKs[i].Key
		case ExtKeyShare:
			r := &rd{b: x.Data}
			g := r.u16()
			pub := r.v16()
			if r.done() != nil {
				return fail(AlertDecode, "bad key share")
			}
			s := st.shares[g]
			if s == nil {
				return fail(AlertIllegal, "key share for group %d", g)
			}
			var err error
			if dh, err = s.agree(pub); err != nil {
				return fail(AlertIllegal, "key share: %v", err)
			}
			c.Res.Group = g
			c.PeerShare = x.Data
		default:
			return fail(AlertUnsupported, "server hello extension %d", x.Type)
		}
	}
	if psk == nil && dh == nil {
		return fail(AlertMissingExt, "no key exchange")
	}
	if c.Res.PSK >= 0 {
		if dh == nil && !has(cfg.Modes, 0) || dh != nil && !has(cfg.Modes, 1) {
			return fail(AlertIllegal, "key exchange mode not offered")
		}
	}
	s := c.secrets(psk, dh)
	if err := c.setIn(newKeys(c.suite, s.hsS)); err != nil {
		return err
	}
	if !offeredEarly {
		if c.Rec.CCS && !c.Res.Retried {
			c.SendRaw([]byte{RTCCS, 3, 3, 0, 1, 1})
		}
		c.out, c.HSAt = newKeys(c.suite, s.hsC), len(c.SentHS)
	}
	m, err = c.expect(HTEncExt)
	if err != nil {
		return err
	}
	r := &rd{b: m[4:]}
	eb := r.v16()
	if r.done() != nil {
		return fail(AlertDecode, "encrypted extensions")
	}
	ee, perr := parseExts(eb)
	if perr != nil {
		return fail(AlertDecode, "encrypted extensions: %v", perr)
	}
	c.Res.ServerExts = ee
	for _, x := range ee {
		switch x.Type {
		case ExtALPN:
			p, err := parseALPN(x.Data)
			if err != nil {
				return err
			}
			ok := false
			for _, q := range cfg.ALPN {
				ok = ok || q == p[0]
			}
			if len(p) != 1 || !ok {
				return fail(AlertIllegal, "application protocol %q", p)
			}
			c.Res.ALPN = p[0]
		case ExtEarly:
			if !offeredEarly || c.Res.PSK != 0 || len(x.Data) != 0 {
				return fail(AlertUnsupported, "early data accepted that was not offered")
			}
			c.Res.Early = true
		case ExtGroups:
		case ExtSNI:
			if cfg.ServerName == "" || len(x.Data) != 0 {
				return fail(AlertUnsupported, "server name answered")
			}
		default:
			return fail(AlertUnsupported, "encrypted extension %d", x.Type)
		}
	}
	c.tr = append(c.tr, m...)
	if offeredEarly && !c.Res.Early {
		c.out, c.HSAt = newKeys(c.suite, s.hsC), len(c.SentHS)
	}
	if cfg.EarlyAfter != nil {
		cfg.EarlyAfter(c)
	}
	t, m, err := c.ReadMsg()
	if err != nil {
		return err
	}
	requested := false
	var reqSigs []int
	if c.Res.PSK < 0 {
		if t == HTCertReq {
			r := &rd{b: m[4:]}
			ctx := r.v8()
			eb := r.v16()
			if r.done() != nil || len(ctx) != 0 {
				return fail(AlertDecode, "certificate request")
			}
			ex, err := parseExts(eb)
			if err != nil {
				return fail(AlertDecode, "certificate request: %v", err)
			}
			sa, ok := ex.Find(ExtSigAlgs)
			if !ok {
				return fail(AlertMissingExt, "certificate request without signature algorithms")
			}
			q := &rd{b: sa}
			reqSigs = parseU16s(q.v16())
			requested = true
			c.tr = append(c.tr, m...)
			if t, m, err = c.ReadMsg(); err != nil {
				return err
			}
		}
		if t != HTCert {
			return fail(AlertUnexpected, "message %d where the certificate was due", t)
		}
		if c.Res.PeerCerts, err = parseCert(m); err != nil {
			return err
		}
		if len(c.Res.PeerCerts) == 0 {
			return fail(AlertDecode, "no server certificate")
		}
		c.GotCert = m
		c.tr = append(c.tr, m...)
		if m, err = c.expect(HTCertVerify); err != nil {
			return err
		}
		c.GotCV = m
		scheme, sig, err := parseCV(m)
		if err != nil {
			return err
		}
		if !has(cfg.Sigs, scheme) {
			return fail(AlertIllegal, "signature scheme %04x was not offered", scheme)
		}
		if !verifyCV(true, c.h(), c.tr, scheme, c.Res.PeerCerts[0].PublicKey, sig) {
			return fail(AlertDecrypt, "server signature")
		}
		if cfg.Verify != nil {
			if err := cfg.Verify(c.Res.PeerCerts); err != nil {
				return fail(AlertBadCert, "%v", err)
			}
		}
		c.tr = append(c.tr, m...)
		if t, m, err = c.ReadMsg(); err != nil {
			return err
		}
	}
	if t != HTFinished {
		return fail(AlertUnexpected, "message %d where Finished was due", t)
	}
	if !equal(m[4:], c.finished(s.hsS)) {
		return fail(AlertDecrypt, "server Finished")
	}
	c.tr = append(c.tr, m...)
	c.appSecrets(s)
	if err := c.setIn(newKeys(c.suite, s.apS)); err != nil {
		return err
	}
	if c.Res.Early {
		c.Queue("EOED", Msg(HTEndEarly, nil))
		c.HSAt = len(c.SentHS) + len(c.pend)
		if err := c.setOut(newKeys(c.suite, s.hsC)); err != nil {
			return err
		}
	}
	if requested && !cfg.NoCert {
		scheme := cfg.SigScheme
		chain := cfg.Chain
		if scheme == 0 && cfg.Key != nil {
			for _, x := range reqSigs {
				if scheme == 0 && sigFits(x, cfg.Key.Public()) {
					scheme = x
				}
			}
		}
		if scheme == 0 {
			chain = nil
		}
		cm := certMsg(nil, chain)
		c.SentCert = cm
		c.Queue("CCERT", cm)
		if len(chain) > 0 && cfg.Key != nil {
			over := c.tr
			if cfg.SignOver != nil {
				over = cfg.SignOver(over)
			}
			c.SentCV = Msg(HTCertVerify, cat(u16(scheme), V16(SignCV(false, c.h(), over, scheme, cfg.Key))))
			c.Queue("CCV", c.SentCV)
		}
	}
	if cfg.BeforeFin != nil {
		cfg.BeforeFin(c)
	}
	fin := c.finished(s.hsC)
	if cfg.BadFin {
		fin[len(fin)/2] ^= 4
	}
	c.Queue("CFIN", Msg(HTFinished, fin))
	c.resume = derive(c.h(), c.master, "res master", c.tr)
	if err := c.setOut(newKeys(c.suite, s.apC)); err != nil {
		return err
	}
	c.hsDone = true
	return nil
}

func (c *Conn) checkSH(cfg *ClientConfig, st *helloState, sh *ServerHello) error {
	if sh.Version != 0x0303 {
		return fail(AlertIllegal, "legacy version %04x", sh.Version)
	}
	if string(sh.SessionID) != string(st.ch.SessionID) {
		return fail(AlertIllegal, "session id not echoed")
	}
	if sh.Comp != 0 {
		return fail(AlertIllegal, "compression")
	}
	v, ok := sh.Exts.Find(ExtVersions)
	if !ok || len(v) != 2 || v[0] != 3 || v[1] != 4 {
		return fail(AlertVersion, "version %x", v)
	}
	if !has(st.ch.Suites, sh.Suite) {
		return fail(AlertIllegal, "suite %04x was not offered", sh.Suite)
	}
	return nil
}

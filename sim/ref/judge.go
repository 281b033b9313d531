package ref

import (
	"crypto"
	"crypto/x509"
	"errors"
	"fmt"
)

// Proof is what the handshake messages on the wire amount to, worked out
// from the messages alone and not from what either end believes.
type Proof struct {
	PSK     int // selected identity, -1: none
	Chain   []*x509.Certificate
	Raw     [][]byte
	Request bool // the server asked for a certificate
	Early   bool // the server accepted early data
	Suite   int
	tr      []byte // up to and including the server's Finished
	hs      *sched
	psk     []byte
	reqSigs []byte // what the server's request says
}

func splitAll(b []byte) ([][]byte, []byte) {
	var o [][]byte
	for len(b) >= 4 {
		n := 4 + int(b[1])<<16 + int(b[2])<<8 + int(b[3])
		if len(b) < n {
			break
		}
		o = append(o, b[:n])
		b = b[n:]
	}
	return o, b
}

type judging struct {
	c    *Conn
	msgs [][]byte
	why  string
}

func (j *judging) next(what string, types ...int) []byte {
	if j.why != "" {
		return nil
	}
	if len(j.msgs) == 0 {
		j.why = "no " + what
		return nil
	}
	m := j.msgs[0]
	for _, t := range types {
		if int(m[0]) == t {
			j.msgs = j.msgs[1:]
			return m
		}
	}
	j.why = fmt.Sprintf("message %d instead of %s", m[0], what)
	return nil
}

// ServerProof judges what a server sent to a client. The connection is the
// server's; keys are the pre-shared keys the client offered, in order, dh the
// agreed secret. It returns a reason why the server is not authenticated (by
// a pre-shared key or by possession of the key of the certificate), or "".
func (c *Conn) ServerProof(offered []PSK) (*Proof, string) {
	sent, _ := splitAll(c.SentHS)
	j := &judging{c: c, msgs: sent}
	return c.serverProof(j, c.GotMsgs, offered, c.MyShare)
}

func (c *Conn) serverProof(j *judging, client [][]byte, offered []PSK, share []byte) (*Proof, string) {
	if len(client) == 0 || client[0][0] != HTClientHello {
		return nil, "no client hello"
	}
	p := &Proof{PSK: -1, tr: append([]byte{}, client[0]...)}
	hello := client[0]
	m := j.next("server hello", HTServerHello)
	if m == nil {
		return p, j.why
	}
	sh, err := looseSH(m[4:])
	if err != nil {
		return p, "server hello"
	}
	if sh.Random == hrrRandom {
		if len(client) < 2 || client[1][0] != HTClientHello {
			return p, "no second client hello"
		}
		h := suiteHash(sh.Suite)
		if h == 0 {
			return p, "suite"
		}
		p.tr = cat(Msg(HTMessageHash, hsum(h, p.tr)), m, client[1])
		hello = client[1]
		if m = j.next("server hello", HTServerHello); m == nil {
			return p, j.why
		}
		if sh, err = looseSH(m[4:]); err != nil || sh.Random == hrrRandom {
			return p, "second retry"
		}
	}
	p.tr = append(p.tr, m...)
	p.Suite = sh.Suite
	h := suiteHash(sh.Suite)
	if h == 0 {
		return p, "suite"
	}
	if d, ok := sh.Exts.Find(ExtPSK); ok {
		ch, err := ParseClientHello(hello[4:], false)
		if err != nil {
			return p, "client hello"
		}
		_, off := ch.Exts.Find(ExtPSK)
		if len(d) != 2 || !off {
			return p, "a pre-shared key that was not offered"
		}
		p.PSK = int(d[0])<<8 | int(d[1])
		if p.PSK >= len(offered) {
			return p, "an identity that was not offered"
		}
		p.psk = offered[p.PSK].Key
		if suiteHash(offered[p.PSK].Suite) != h {
			return p, "a key for another hash"
		}
	}
	var dh []byte
	if d, ok := sh.Exts.Find(ExtKeyShare); ok {
		if string(d) != string(share) || c.DH == nil {
			return p, "a key share of which nobody knows the secret"
		}
		dh = c.DH
	} else if p.PSK < 0 {
		return p, "no key exchange"
	}
	es := extract(h, nil, p.psk)
	s := &sched{hs: extract(h, derive(h, es, "derived", nil), dh)}
	s.hsC = derive(h, s.hs, "c hs traffic", p.tr)
	s.hsS = derive(h, s.hs, "s hs traffic", p.tr)
	p.hs = s
	if m = j.next("encrypted extensions", HTEncExt); m == nil {
		return p, j.why
	}
	p.tr = append(p.tr, m...)
	r := &rd{b: m[4:]}
	if ee, err := parseExts(r.v16()); err == nil {
		_, p.Early = ee.Find(ExtEarly)
	}
	if p.PSK < 0 {
		if len(j.msgs) > 0 && j.msgs[0][0] == HTCertReq {
			p.Request = true
			cr := j.next("", HTCertReq)
			p.tr = append(p.tr, cr...)
			r := &rd{b: cr[4:]}
			r.v8()
			if x, err := parseExts(r.v16()); err == nil {
				p.reqSigs, _ = x.Find(ExtSigAlgs)
			}
		}
		var sigs []byte
		if ch, err := ParseClientHello(hello[4:], false); err == nil {
			sigs, _ = ch.Exts.Find(ExtSigAlgs)
		}
		if why := p.cert(j, true, sigs); why != "" {
			return p, why
		}
	}
	if m = j.next("finished", HTFinished); m == nil {
		return p, j.why
	}
	if !equal(m[4:], hm(h, expandLabel(h, s.hsS, "finished", nil, h.Size()), hsum(h, p.tr))) {
		return p, "the server's Finished is wrong"
	}
	p.tr = append(p.tr, m...)
	return p, ""
}

// cert takes a Certificate and CertificateVerify; sigs are the schemes that
// the receiver supports.
func (p *Proof) cert(j *judging, server bool, sigs []byte) string {
	h := suiteHash(p.Suite)
	m := j.next("certificate", HTCert)
	if m == nil {
		return j.why
	}
	var err error
	if p.Chain, err = parseCert(m); err != nil {
		return "certificate message"
	}
	p.tr = append(p.tr, m...)
	if len(p.Chain) == 0 {
		return "no certificate"
	}
	for _, x := range p.Chain {
		p.Raw = append(p.Raw, x.Raw)
	}
	if m = j.next("certificate verify", HTCertVerify); m == nil {
		return j.why
	}
	scheme, sig, err := parseCV(m)
	if err != nil || !verifyCV(server, h, p.tr, scheme, p.Chain[0].PublicKey, sig) {
		return "the signature is not by the key of the certificate over this handshake"
	}
	p.tr = append(p.tr, m...)
	if r := (&rd{b: sigs}); !has(parseU16s(r.v16()), scheme) {
		return whyScheme
	}
	return ""
}

const whyScheme = "the signature is by a scheme that was not asked for"

// ClientProof judges what a client sent to a server; c is the client's
// connection. keys finds what the server knows under an identity. The
// certificate, if any, is in the proof only if its key was proved.
func (c *Conn) ClientProof(key func(id []byte) *PSK) (*Proof, string) {
	sent, _ := splitAll(c.SentHS)
	if len(sent) == 0 || len(c.GotMsgs) == 0 {
		return nil, "no hello"
	}
	// which hello counts
	n := 1
	var prefix []byte
	if sh, err := looseSH(c.GotMsgs[0][4:]); err == nil && c.GotMsgs[0][0] == HTServerHello && sh.Random == hrrRandom && suiteHash(sh.Suite) != 0 {
		n = 2
		if len(sent) < 2 {
			return nil, "no second hello"
		}
		prefix = cat(Msg(HTMessageHash, hsum(suiteHash(sh.Suite), sent[0])), c.GotMsgs[0])
	}
	hello := sent[n-1]
	if hello[0] != HTClientHello {
		return nil, "no hello"
	}
	ch, err := ParseClientHello(hello[4:], false)
	if err != nil {
		return nil, "hello"
	}
	// the identities and their binders
	var offered []PSK
	var good []string
	if d, ok := ch.Exts.Find(ExtPSK); ok {
		r := &rd{b: d}
		ids, bs := r.v16(), r.v16()
		if r.done() != nil {
			return nil, "pre_shared_key"
		}
		ri, rb := &rd{b: ids}, &rd{b: bs}
		for len(ri.b) > 0 && !ri.bad {
			id := ri.v16()
			age := ri.u32()
			b := rb.v8()
			k := key(id)
			why := ""
			if k == nil {
				k, why = &PSK{Suite: 0x1301}, "an identity the server does not know"
			} else if q := *k; !equal(b, binder(&q, prefix, hello[:len(hello)-len(bs)-2])) {
				why = "the binder is not by the key the server knows"
			}
			q := *k
			q.Obfuscated = age
			offered = append(offered, q)
			good = append(good, why)
		}
	}
	j := &judging{c: c, msgs: append([][]byte{}, c.GotMsgs...)}
	p, why := c.serverProof(j, sent, offered, c.PeerShare)
	if p != nil && p.PSK >= 0 && p.PSK < len(good) && good[p.PSK] != "" {
		return p, good[p.PSK]
	}
	if p == nil || p.tr == nil || p.hs == nil || why != "" && why != "the signature is not by the key of the certificate over this handshake" && why != whyScheme {
		return p, "server: " + why
	}
	p.Chain, p.Raw = nil, nil
	k := &judging{c: c, msgs: sent[n:]}
	if _, early := ch.Exts.Find(ExtEarly); early && !p.Early {
		// what was not protected by the handshake keys counts as early data
		at := 0
		for _, m := range sent[:n] {
			at += len(m)
		}
		for len(k.msgs) > 0 && at < c.HSAt {
			at += len(k.msgs[0])
			k.msgs = k.msgs[1:]
		}
	}
	if p.Early {
		m := k.next("end of early data", HTEndEarly)
		if m == nil {
			return p, k.why
		}
		p.tr = append(p.tr, m...)
	}
	if p.Request {
		if len(k.msgs) > 0 && k.msgs[0][0] == HTCert {
			if x, err := parseCert(k.msgs[0]); err == nil && len(x) == 0 {
				p.tr = append(p.tr, k.next("", HTCert)...)
			} else if why := p.cert(k, false, p.reqSigs); why != "" {
				return p, why
			}
		} else {
			return p, "the client skipped its certificate message"
		}
	}
	m := k.next("finished", HTFinished)
	if m == nil {
		return p, k.why
	}
	h := suiteHash(p.Suite)
	if !equal(m[4:], hm(h, expandLabel(h, p.hs.hsC, "finished", nil, h.Size()), hsum(h, p.tr))) {
		return p, "the client's Finished is wrong"
	}
	return p, ""
}

// FinNow is a Finished message that is right for the transcript so far.
func (c *Conn) FinNow() []byte {
	if c.Sch == nil {
		return Msg(HTFinished, make([]byte, 32))
	}
	k := c.Sch.hsS
	if c.Client {
		k = c.Sch.hsC
	}
	return Msg(HTFinished, c.finished(k))
}

// CVNow is a CertificateVerify for the transcript so far.
func (c *Conn) CVNow(scheme int, key crypto.Signer, server bool) []byte {
	return Msg(HTCertVerify, cat(u16(scheme), V16(SignCV(server, c.h(), c.tr, scheme, key))))
}

func CertMsg(chain [][]byte) []byte { return certMsg(nil, chain) }

// Transcript so far.
func (c *Conn) Transcript() []byte { return c.tr }

// looseSH ignores what follows the extensions: whether that is tolerated is
// not a question of authentication.
func looseSH(b []byte) (*ServerHello, error) {
	if len(b) > 35 {
		n := 35 + int(b[34]) + 3
		if len(b) >= n+2 {
			n += 2 + int(b[n])<<8 + int(b[n+1])
			if len(b) > n {
				b = b[:n]
			}
		}
	}
	return ParseServerHello(b)
}

// FirstSent is the first handshake message sent.
func (c *Conn) FirstSent() []byte {
	m, _ := splitAll(c.SentHS)
	if len(m) == 0 {
		return nil
	}
	return m[0]
}

// Offered lists the pre-shared keys a ClientHello message offers.
func Offered(hello []byte) ([]PSK, error) {
	if len(hello) < 4 {
		return nil, errors.New("short")
	}
	ch, err := ParseClientHello(hello[4:], false)
	if err != nil {
		return nil, err
	}
	d, ok := ch.Exts.Find(ExtPSK)
	if !ok {
		return nil, nil
	}
	r := &rd{b: d}
	ids, bs := r.v16(), r.v16()
	if r.done() != nil {
		return nil, errors.New("malformed pre_shared_key")
	}
	var out []PSK
	ri, rb := &rd{b: ids}, &rd{b: bs}
	for len(ri.b) > 0 && !ri.bad {
		p := PSK{ID: ri.v16()}
		p.Obfuscated = ri.u32()
		rb.v8()
		out = append(out, p)
	}
	if ri.bad || rb.done() != nil {
		return nil, errors.New("malformed pre_shared_key")
	}
	return out, nil
}

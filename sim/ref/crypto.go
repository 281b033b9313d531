package ref

import (
	"bytes"
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"errors"
	"math/big"
)

func suiteHash(s int) crypto.Hash {
	if s == SuiteAES256 {
		return crypto.SHA384
	}
	return crypto.SHA256
}

func suiteKeyLen(s int) int {
	if s == SuiteAES256 {
		return 32
	}
	return 16
}

func hsum(h crypto.Hash, b []byte) []byte {
	x := h.New()
	x.Write(b)
	return x.Sum(nil)
}

func hm(h crypto.Hash, key, b []byte) []byte {
	x := hmac.New(h.New, key)
	x.Write(b)
	return x.Sum(nil)
}

func extract(h crypto.Hash, salt, ikm []byte) []byte {
	if salt == nil {
		salt = make([]byte, h.Size())
	}
	if ikm == nil {
		ikm = make([]byte, h.Size())
	}
	return hm(h, salt, ikm)
}

func expandLabel(h crypto.Hash, secret []byte, label string, ctx []byte, n int) []byte {
	info := cat(u16(n), V8([]byte("tls13 "+label)), V8(ctx))
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = hm(h, secret, cat(t, info, []byte{i}))
		out = append(out, t...)
	}
	return out[:n]
}

// derive is Derive-Secret over a transcript.
func derive(h crypto.Hash, secret []byte, label string, transcript []byte) []byte {
	return expandLabel(h, secret, label, hsum(h, transcript), h.Size())
}

type keys struct {
	aead   cipher.AEAD
	iv     []byte
	seq    uint64
	secret []byte
	suite  int
	key    []byte
}

func newKeys(suite int, secret []byte) *keys {
	h := suiteHash(suite)
	k := expandLabel(h, secret, "key", nil, suiteKeyLen(suite))
	b, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return &keys{aead: a, iv: expandLabel(h, secret, "iv", nil, 12), secret: secret, suite: suite, key: k}
}

func (k *keys) nonce() []byte {
	n := append([]byte{}, k.iv...)
	for i := 0; i < 8; i++ {
		n[11-i] ^= byte(k.seq >> (8 * i))
	}
	return n
}

func (k *keys) next() *keys {
	h := suiteHash(k.suite)
	return newKeys(k.suite, expandLabel(h, k.secret, "traffic upd", nil, h.Size()))
}

// key agreement

// the groups of RFC 7919: size and X in p = 2^b - 2^(b-64) + (floor(2^(b-130) e) + X) 2^64 - 1
var ffdheX = map[int][2]int64{256: {2048, 560316}, 257: {3072, 2625351}, 258: {4096, 5736041}, 259: {6144, 15705020}, 260: {8192, 10965728}}

var ffdhePrimes = map[int]*big.Int{}

func init() {
	for g := range ffdheX {
		ffdhePrimes[g] = ffdhePrime(g)
	}
}

func ffdhePrime(g int) *big.Int {
	b := uint(ffdheX[g][0])
	// floor(2^(b-130) e), computed with 128 bits to spare
	e, term := new(big.Int), new(big.Int).Lsh(big.NewInt(1), b-130+128)
	for k := int64(1); term.Sign() > 0; k++ {
		e.Add(e, term)
		term.Quo(term, big.NewInt(k))
	}
	e.Rsh(e, 128)
	p := new(big.Int).Lsh(big.NewInt(1), b)
	p.Sub(p, new(big.Int).Lsh(big.NewInt(1), b-64))
	e.Add(e, big.NewInt(ffdheX[g][1]))
	p.Add(p, e.Lsh(e, 64))
	return p.Sub(p, big.NewInt(1))
}

type share struct {
	group int
	pub   []byte
	ec    *ecdh.PrivateKey
	ff    *big.Int
}

func curve(g int) ecdh.Curve {
	switch g {
	case GroupP256:
		return ecdh.P256()
	case GroupP384:
		return ecdh.P384()
	case GroupP521:
		return ecdh.P521()
	case GroupX25519:
		return ecdh.X25519()
	}
	return nil
}

func newShare(g int) (*share, error) {
	if c := curve(g); c != nil {
		k, err := c.GenerateKey(rand.Reader)
		if err != nil {
			return nil, err
		}
		return &share{group: g, pub: k.PublicKey().Bytes(), ec: k}, nil
	}
	if p := ffdhePrimes[g]; p != nil {
		b := make([]byte, 48)
		rand.Read(b)
		x := new(big.Int).SetBytes(b)
		y := new(big.Int).Exp(big.NewInt(2), x, p)
		return &share{group: g, pub: y.FillBytes(make([]byte, p.BitLen()/8)), ff: x}, nil
	}
	return nil, errors.New("unknown group")
}

func (s *share) agree(pub []byte) ([]byte, error) {
	if s.ec != nil {
		p, err := curve(s.group).NewPublicKey(pub)
		if err != nil {
			return nil, err
		}
		return s.ec.ECDH(p)
	}
	p := ffdhePrimes[s.group]
	n := p.BitLen() / 8
	if len(pub) != n {
		return nil, errors.New("bad FFDHE share length")
	}
	y := new(big.Int).SetBytes(pub)
	if y.Cmp(big.NewInt(1)) <= 0 || y.Cmp(new(big.Int).Sub(p, big.NewInt(1))) >= 0 {
		return nil, errors.New("bad FFDHE share")
	}
	return y.Exp(y, s.ff, p).FillBytes(make([]byte, n)), nil
}

// rareShare looks for a share whose public value (peer == nil), or the secret
// with a given peer's value, begins with a zero byte.
func rareShare(g int, peer []byte) (*share, error) {
	s, err := newShare(g)
	if err != nil {
		return nil, err
	}
	p := ffdhePrimes[g]
	if p == nil {
		for i := 0; peer != nil && i < 1500; i++ {
			if z, err := s.agree(peer); err != nil || z[0] == 0 {
				break
			}
			if s, err = newShare(g); err != nil {
				return nil, err
			}
		}
		return s, nil
	}
	two := big.NewInt(2)
	y := new(big.Int).SetBytes(peer)
	z, w := new(big.Int).Exp(two, s.ff, p), new(big.Int).Exp(y, s.ff, p)
	look := w
	if peer == nil {
		look = z
	}
	for i := 0; i < 5000 && look.BitLen() > p.BitLen()-8; i++ {
		s.ff.Add(s.ff, big.NewInt(1))
		z.Mod(z.Mul(z, two), p)
		if peer != nil {
			w.Mod(w.Mul(w, y), p)
		}
	}
	s.pub = z.FillBytes(make([]byte, p.BitLen()/8))
	return s, nil
}

// signatures

const (
	SigP256   = 0x0403
	SigP384   = 0x0503
	SigP521   = 0x0603
	SigPSS256 = 0x0804
	SigPSS384 = 0x0805
	SigPSS512 = 0x0806
	// for certificates only
	SigPKCS256 = 0x0401
	SigPKCS384 = 0x0501
	SigPKCS512 = 0x0601
	SigPKCS1   = 0x0201
)

func sigHash(s int) crypto.Hash {
	switch s {
	case SigP256, SigPSS256, SigPKCS256:
		return crypto.SHA256
	case SigP384, SigPSS384, SigPKCS384:
		return crypto.SHA384
	case SigPKCS1:
		return crypto.SHA1
	}
	return crypto.SHA512
}

func sigFits(s int, pub crypto.PublicKey) bool {
	switch k := pub.(type) {
	case *rsa.PublicKey:
		return s == SigPSS256 || s == SigPSS384 || s == SigPSS512
	case *ecdsa.PublicKey:
		switch k.Curve.Params().BitSize {
		case 256:
			return s == SigP256
		case 384:
			return s == SigP384
		case 521:
			return s == SigP521
		}
	}
	return false
}

func cvInput(server bool, h crypto.Hash, transcript []byte) []byte {
	who := "client"
	if server {
		who = "server"
	}
	return cat(bytes.Repeat([]byte{32}, 64), []byte("TLS 1.3, "+who+" CertificateVerify"), []byte{0}, hsum(h, transcript))
}

// SignCV makes the signature of a CertificateVerify, with a scheme that is
// not for that if it has to.
func SignCV(server bool, h crypto.Hash, transcript []byte, scheme int, key crypto.Signer) []byte {
	sh := sigHash(scheme)
	d := hsum(sh, cvInput(server, h, transcript))
	var opts crypto.SignerOpts = sh
	if _, ok := key.(*rsa.PrivateKey); ok && scheme>>8 == 8 {
		opts = &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: sh}
	}
	sig, err := key.Sign(rand.Reader, d, opts)
	if err != nil {
		return []byte("no signature")
	}
	return sig
}

func verifyCV(server bool, h crypto.Hash, transcript []byte, scheme int, pub crypto.PublicKey, sig []byte) bool {
	if !sigFits(scheme, pub) {
		return false
	}
	sh := sigHash(scheme)
	d := hsum(sh, cvInput(server, h, transcript))
	switch k := pub.(type) {
	case *rsa.PublicKey:
		return rsa.VerifyPSS(k, sh, d, sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: sh}) == nil
	case *ecdsa.PublicKey:
		return ecdsa.VerifyASN1(k, d, sig)
	}
	return false
}

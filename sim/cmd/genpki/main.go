// Command genpki made engine/pki.json once; the file is committed so that
// every run uses the same certificates.
package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"math/big"
	"os"
	"strings"
	"time"
)

type entry struct {
	Chain [][]byte
	Key   []byte
}

var serial = int64(100)

func key(alg string) crypto.Signer {
	switch alg {
	case "p256":
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		return k
	case "p384":
		k, _ := ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
		return k
	case "p521":
		k, _ := ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
		return k
	}
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	return k
}

func mk(cn string, names []string, ca bool, pub crypto.PublicKey, parent *x509.Certificate, pk crypto.Signer, nb, na time.Time, pad int) *x509.Certificate {
	serial++
	t := &x509.Certificate{
		SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, DNSNames: names,
		NotBefore: nb, NotAfter: na, BasicConstraintsValid: true, IsCA: ca,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
	}
	if ca {
		t.KeyUsage |= x509.KeyUsageCertSign
	}
	if pad > 0 {
		t.Subject.Organization = []string{strings.Repeat("x", pad)}
	}
	if parent == nil {
		parent = t
	}
	d, err := x509.CreateCertificate(rand.Reader, t, parent, pub, pk)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(d)
	if err != nil {
		panic(err)
	}
	return c
}

func main() {
	nb := time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)
	na := time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC)
	out := map[string]entry{}
	put := func(n string, k crypto.Signer, chain ...*x509.Certificate) {
		b, err := x509.MarshalPKCS8PrivateKey(k)
		if err != nil {
			panic(err)
		}
		e := entry{Key: b}
		for _, c := range chain {
			e.Chain = append(e.Chain, c.Raw)
		}
		out[n] = e
	}
	rk := key("p256")
	root := mk("sim root", nil, true, rk.Public(), nil, rk, nb, na, 0)
	put("root", rk, root)
	ek := key("p256")
	eroot := mk("evil root", nil, true, ek.Public(), nil, ek, nb, na, 0)
	put("evilroot", ek, eroot)
	// an attacker's root that carries the genuine root's name
	fk := key("p256")
	froot := mk("sim root", nil, true, fk.Public(), nil, fk, nb, na, 0)
	put("fakeroot", fk, froot)
	ik := key("p256")
	inter := mk("sim intermediate", nil, true, ik.Public(), root, rk, nb, na, 0)
	for _, a := range []string{"p256", "p384", "p521", "rsa"} {
		k := key(a)
		put("a."+a, k, mk("a "+a, []string{"a.example.com"}, false, k.Public(), root, rk, nb, na, 0))
		k = key(a)
		put("b."+a, k, mk("b "+a, []string{"b.example.com", "bb.example.com"}, false, k.Public(), root, rk, nb, na, 0))
		k = key(a)
		put("client."+a, k, mk("client "+a, []string{"client.example.com"}, false, k.Public(), root, rk, nb, na, 0))
	}
	k := key("p256")
	put("a.inter", k, mk("a inter", []string{"a.example.com"}, false, k.Public(), inter, ik, nb, na, 0), inter)
	k = key("p256")
	put("a.nointer", k, mk("a nointer", []string{"a.example.com"}, false, k.Public(), inter, ik, nb, na, 0))
	// long chain: padding intermediates make a Certificate message of several records
	big1 := mk("sim big intermediate", nil, true, ik.Public(), root, rk, nb, na, 3000)
	k = key("p256")
	put("a.big", k, mk("a big", []string{"a.example.com"}, false, k.Public(), big1, ik, nb, na, 1500), big1)
	var huge []*x509.Certificate
	pk, pc := rk, root
	for i := 0; i < 5; i++ {
		nk := key("p256")
		c := mk("sim huge "+string(rune('0'+i)), nil, true, nk.Public(), pc, pk, nb, na, 3500)
		huge = append([]*x509.Certificate{c}, huge...)
		pk, pc = nk, c
	}
	k = key("p256")
	put("a.huge", k, append([]*x509.Certificate{mk("a huge", []string{"a.example.com"}, false, k.Public(), pc, pk, nb, na, 3000)}, huge...)...)
	// valid for one hour from the start of simulated time, plus one that starts later
	t0 := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
	k = key("p256")
	put("a.short", k, mk("a short", []string{"a.example.com"}, false, k.Public(), root, rk, t0.Add(-time.Hour), t0.Add(time.Hour), 0))
	k = key("p256")
	put("a.expired", k, mk("a expired", []string{"a.example.com"}, false, k.Public(), root, rk, nb, t0.Add(-time.Hour), 0))
	k = key("p256")
	put("a.future", k, mk("a future", []string{"a.example.com"}, false, k.Public(), root, rk, t0.Add(time.Hour), na, 0))
	k = key("p256")
	put("a.evil", k, mk("a evil", []string{"a.example.com"}, false, k.Public(), eroot, ek, nb, na, 0))
	k = key("p256")
	put("a.fake", k, mk("a fake", []string{"a.example.com"}, false, k.Public(), froot, fk, nb, na, 0))
	k = key("p256")
	put("a.self", k, mk("a self", []string{"a.example.com"}, false, k.Public(), nil, k, nb, na, 0))
	// signed by a genuine leaf, which is no CA
	lk, _ := x509.ParsePKCS8PrivateKey(out["b.p256"].Key)
	lc, _ := x509.ParseCertificate(out["b.p256"].Chain[0])
	k = key("p256")
	put("a.byleaf", k, mk("a byleaf", []string{"a.example.com"}, false, k.Public(), lc, lk.(crypto.Signer), nb, na, 0), lc)
	k = key("p256")
	put("client.evil", k, mk("client evil", []string{"client.example.com"}, false, k.Public(), eroot, ek, nb, na, 0))
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile("engine/pki.json", append(b, '\n'), 0644); err != nil {
		panic(err)
	}
}

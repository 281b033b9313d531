// Command more added certificates to engine/pki.json, which keeps the others as
// they are.
package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"math/big"
	"os"
	"time"
)

type entry struct {
	Chain [][]byte
	Key   []byte
}

func main() {
	b, _ := os.ReadFile(os.Args[1])
	m := map[string]entry{}
	json.Unmarshal(b, &m)
	nb := time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)
	na := time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC)
	rx, _ := x509.ParsePKCS8PrivateKey(m["root"].Key)
	rk := rx.(crypto.Signer)
	root, _ := x509.ParseCertificate(m["root"].Chain[0])
	serial := int64(900)
	mk := func(cn string, names []string, ca bool, eku []x509.ExtKeyUsage, permit []string, parent *x509.Certificate, pk crypto.Signer) (*x509.Certificate, crypto.Signer) {
		serial++
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, DNSNames: names, NotBefore: nb, NotAfter: na,
			BasicConstraintsValid: true, IsCA: ca, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: eku, PermittedDNSDomains: permit, PermittedDNSDomainsCritical: len(permit) > 0}
		if ca {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		d, err := x509.CreateCertificate(rand.Reader, t, parent, k.Public(), pk)
		if err != nil {
			panic(err)
		}
		c, _ := x509.ParseCertificate(d)
		return c, k
	}
	put := func(n string, k crypto.Signer, ch ...*x509.Certificate) {
		b, _ := x509.MarshalPKCS8PrivateKey(k)
		e := entry{Key: b}
		for _, c := range ch {
			e.Chain = append(e.Chain, c.Raw)
		}
		m[n] = e
	}
	sv, cl := []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	a := []string{"a.example.com"}
	c, k := mk("a for clients", a, false, cl, nil, root, rk)
	put("a.clientonly", k, c)
	c, k = mk("a signs code", a, false, []x509.ExtKeyUsage{x509.ExtKeyUsageCodeSigning}, nil, root, rk)
	put("a.code", k, c)
	c, k = mk("a for servers", a, false, sv, nil, root, rk)
	put("a.serveronly", k, c)
	c, k = mk("any name", []string{"*.example.com"}, false, sv, nil, root, rk)
	put("a.wild", k, c)
	c, k = mk("a.example.com", nil, false, sv, nil, root, rk)
	put("a.cnonly", k, c)
	i, ik := mk("sim constrained", nil, true, nil, []string{"other.org"}, root, rk)
	c, k = mk("a constrained", a, false, sv, nil, i, ik)
	put("a.constrained", k, c, i)
	i, ik = mk("sim ca for clients", nil, true, cl, nil, root, rk)
	c, k = mk("a by ca for clients", a, false, sv, nil, i, ik)
	put("a.clientca", k, c, i)
	b, _ = json.MarshalIndent(m, "", " ")
	os.WriteFile(os.Args[1], append(b, '\n'), 0644)
}

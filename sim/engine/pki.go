package engine

import (
	"crypto"
	"crypto/x509"
	_ "embed"
	"encoding/json"

	mint "github.com/bifurcation/mint"
)

//go:embed pki.json
var pkiJSON []byte

type pkiEntry struct {
	Chain [][]byte
	Key   []byte
}

// PKI holds the fixed certificates, parsed once per process.
var PKI = map[string]*mint.Certificate{}

func init() {
	m := map[string]pkiEntry{}
	if err := json.Unmarshal(pkiJSON, &m); err != nil {
		panic(err)
	}
	for n, e := range m {
		c := &mint.Certificate{}
		for _, d := range e.Chain {
			x, err := x509.ParseCertificate(d)
			if err != nil {
				panic(err)
			}
			c.Chain = append(c.Chain, x)
		}
		k, err := x509.ParsePKCS8PrivateKey(e.Key)
		if err != nil {
			panic(err)
		}
		c.PrivateKey = k.(crypto.Signer)
		PKI[n] = c
	}
	// chains of 66 to 80 kB
	for n, of := range map[string]string{"a.giant": "a.p256", "client.giant": "client.p256"} {
		c := *PKI[of]
		c.Chain = append([]*x509.Certificate{}, c.Chain...)
		fill := PKI["a.big"].Chain[1]
		for size := 0; size < 66000; size += len(fill.Raw) {
			c.Chain = append(c.Chain, fill)
		}
		PKI[n] = &c
	}
}

// Roots is a pool with the named certificates.
func Roots(names ...string) *x509.CertPool {
	p := x509.NewCertPool()
	for _, n := range names {
		p.AddCert(PKI[n].Chain[0])
	}
	return p
}

func certName(c *x509.Certificate) string {
	if c == nil {
		return "none"
	}
	return c.Subject.CommonName
}

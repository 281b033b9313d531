// Package cipher stands in for crypto/cipher: AEADs built on a keyed block
// report every Seal to the simulator, everything else is the real thing.
package cipher

import (
	"crypto/cipher"

	"verif.local/sim/shim/aes"
	"verif.local/sim/simrt"
)

type (
	AEAD         = cipher.AEAD
	Block        = cipher.Block
	BlockMode    = cipher.BlockMode
	Stream       = cipher.Stream
	StreamReader = cipher.StreamReader
	StreamWriter = cipher.StreamWriter
)

type aead struct {
	cipher.AEAD
	key string
}

func (a *aead) Seal(dst, nonce, plaintext, additional []byte) []byte {
	simrt.RecordSeal(a.key, nonce, plaintext, additional)
	plaintext = simrt.Tampered(plaintext)
	return a.AEAD.Seal(dst, nonce, plaintext, additional)
}

func wrap(b cipher.Block, f func(cipher.Block) (cipher.AEAD, error)) (cipher.AEAD, error) {
	k, ok := b.(*aes.Keyed)
	if !ok {
		return f(b)
	}
	a, err := f(k.Block)
	if err != nil {
		return nil, err
	}
	return &aead{a, k.Key}, nil
}

func unwrap(b cipher.Block) cipher.Block {
	if k, ok := b.(*aes.Keyed); ok {
		return k.Block
	}
	return b
}

func NewGCM(b Block) (AEAD, error) { return wrap(b, cipher.NewGCM) }
func NewGCMWithNonceSize(b Block, n int) (AEAD, error) {
	return wrap(b, func(x cipher.Block) (cipher.AEAD, error) { return cipher.NewGCMWithNonceSize(x, n) })
}
func NewGCMWithTagSize(b Block, n int) (AEAD, error) {
	return wrap(b, func(x cipher.Block) (cipher.AEAD, error) { return cipher.NewGCMWithTagSize(x, n) })
}
func NewGCMWithRandomNonce(b Block) (AEAD, error)  { return cipher.NewGCMWithRandomNonce(unwrap(b)) }
func NewCBCDecrypter(b Block, iv []byte) BlockMode { return cipher.NewCBCDecrypter(unwrap(b), iv) }
func NewCBCEncrypter(b Block, iv []byte) BlockMode { return cipher.NewCBCEncrypter(unwrap(b), iv) }
func NewCTR(b Block, iv []byte) Stream             { return cipher.NewCTR(unwrap(b), iv) }
func NewCFBDecrypter(b Block, iv []byte) Stream    { return cipher.NewCFBDecrypter(unwrap(b), iv) }
func NewCFBEncrypter(b Block, iv []byte) Stream    { return cipher.NewCFBEncrypter(unwrap(b), iv) }
func NewOFB(b Block, iv []byte) Stream             { return cipher.NewOFB(unwrap(b), iv) }

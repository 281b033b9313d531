// Package aes stands in for crypto/aes so that the simulator can attribute
// every AEAD operation to its key.
package aes

import (
	"crypto/aes"
	"crypto/cipher"
)

const BlockSize = aes.BlockSize

type KeySizeError = aes.KeySizeError

type Keyed struct {
	cipher.Block
	Key string
}

func NewCipher(key []byte) (cipher.Block, error) {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	return &Keyed{b, string(key)}, nil
}

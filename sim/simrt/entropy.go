package simrt

import (
	"crypto/rand"
	"io"
)

// The code under test keeps the random source it finds when it starts, which
// is this one. The rest of the process keeps the usual one.
var realRand = rand.Reader

// Entropy, if set, stands between the code under test and its random source.
var Entropy func(p []byte, source io.Reader) (int, error)

type entropy struct{}

func (entropy) Read(p []byte) (int, error) {
	if Entropy != nil && cur != nil {
		return Entropy(p, realRand)
	}
	return realRand.Read(p)
}

func init() { rand.Reader = entropy{} }

// RestoreRand ends what init began.
func RestoreRand() { rand.Reader = realRand }

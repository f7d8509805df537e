package simrt

import (
	crand "crypto/rand"
	"io"
)

// RandHook, if set, is the secure random source of the process.
var RandHook io.Reader

var realRand io.Reader

type fwd struct{}

func (fwd) Read(p []byte) (int, error) {
	if RandHook != nil {
		return RandHook.Read(p)
	}
	return realRand.Read(p)
}

// The code under test imports this package, so this runs before its own
// initialisation can keep a reference to the source.
func init() {
	realRand = crand.Reader
	crand.Reader = fwd{}
}

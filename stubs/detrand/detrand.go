// Package detrand puts crypto/rand.Reader behind a seam that the harness owns.
// It is imported by the stand-in for core-go's network package, hence
// initialised before any package of the repository that captures rand.Reader.
package detrand

import (
	"crypto/rand"
	"io"
	"sync/atomic"
)

type seam struct{}

var (
	original = rand.Reader
	source   atomic.Pointer[io.Reader]
)

func (seam) Read(p []byte) (int, error) {
	if r := source.Load(); r != nil {
		return (*r).Read(p)
	}
	return original.Read(p)
}

func init() { rand.Reader = seam{} }

// Set makes r the source of every random byte; nil restores the system's.
func Set(r io.Reader) {
	if r == nil {
		source.Store(nil)
		return
	}
	source.Store(&r)
}

// Package arand owns the process's source of randomness. Its init replaces
// crypto/rand.Reader; because the import path sorts before the package under
// test and it needs nothing but crypto/rand, the Go specification of package
// initialisation guarantees that this happens before any variable of the
// package under test is initialised. No hook in the code under test is needed.
package arand

import (
	"crypto/rand"
	"io"
	"sync/atomic"
)

type box struct{ r io.Reader }

var cur atomic.Pointer[box]

type source struct{}

func (source) Read(p []byte) (int, error) { return cur.Load().r.Read(p) }

func init() {
	cur.Store(&box{rand.Reader})
	rand.Reader = source{}
}

// Set installs a source and returns the previous one.
func Set(r io.Reader) io.Reader { return cur.Swap(&box{r}).r }

// Package simioutil replaces io/ioutil in the code under test, so that its
// file functions use the simulated disk.
package simioutil

import (
	"io"

	"verifsim/simos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)         { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser         { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)        { return simos.ReadFile(name) }
func TempFile(dir, p string) (*simos.File, error) { return simos.CreateTemp(dir, p) }
func WriteFile(name string, b []byte, perm simos.FileMode) error {
	return simos.WriteFile(name, b, perm)
}

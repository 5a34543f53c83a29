// Package ioutil stands in for io/ioutil on top of faultos.
package ioutil

import (
	"io"
	"os"

	"verif/faultos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)              { return faultos.ReadFile(name) }
func TempDir(dir, pattern string) (string, error)       { return faultos.MkdirTemp(dir, pattern) }
func TempFile(dir, p string) (*faultos.File, error)     { return faultos.CreateTemp(dir, p) }
func WriteFile(n string, d []byte, p os.FileMode) error { return faultos.WriteFile(n, d, p) }

func ReadDir(dir string) ([]os.FileInfo, error) {
	entries, err := faultos.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	out := []os.FileInfo{}
	for _, e := range entries {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}

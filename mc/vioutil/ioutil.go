// Package vioutil replaces io/ioutil.
package vioutil

import (
	"io"
	"io/fs"
	"io/ioutil"

	"gzmc/vos"
)

var Discard = ioutil.Discard

func ReadAll(r io.Reader) ([]byte, error)                  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                  { return io.NopCloser(r) }
func ReadFile(n string) ([]byte, error)                    { return vos.ReadFile(n) }
func WriteFile(n string, b []byte, perm fs.FileMode) error { return vos.WriteFile(n, b, perm) }
func TempFile(dir, pattern string) (*vos.File, error)      { return vos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)          { return vos.MkdirTemp(dir, pattern) }

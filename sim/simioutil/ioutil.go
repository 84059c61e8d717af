// Package simioutil replaces io/ioutil on top of the simulated disk.
package simioutil

import (
	"io/fs"

	"github.com/mlange-42/bbn/internal/verifsim/simos"
)

func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return simos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return simos.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	entries, err := simos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var res []fs.FileInfo
	for _, e := range entries {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		res = append(res, i)
	}
	return res, nil
}

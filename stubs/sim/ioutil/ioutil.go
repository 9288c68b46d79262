//go:build go1.22

// Package ioutil works on the simulated world.
package ioutil

import (
	"io/fs"

	sim "verif.local/sim/os"
)

func ReadFile(name string) ([]byte, error) { return sim.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return sim.WriteFile(name, data, perm)
}
func TempDir(dir, pattern string) (string, error)     { return sim.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*sim.File, error) { return sim.CreateTemp(dir, pattern) }
func ReadDir(name string) (res []fs.FileInfo, err error) {
	list, err := sim.ReadDir(name)
	for _, e := range list {
		if info, infoErr := e.Info(); infoErr == nil {
			res = append(res, info)
		}
	}

	return res, err
}

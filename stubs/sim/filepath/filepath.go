//go:build go1.22

// Package filepath works on the simulated world.
package filepath

import (
	"errors"
	"io/fs"
	real "path/filepath"

	sim "verif.local/sim/os"
	"verif.local/sim/world"
)

func Abs(name string) (string, error) { return world.Current().Abs(name), nil }

func EvalSymlinks(name string) (string, error) {
	if _, err := sim.Stat(name); err != nil {
		return "", err
	}

	return real.Clean(name), nil
}

func Glob(pattern string) (res []string, err error) {
	dir := real.Dir(pattern)

	list, err := sim.ReadDir(dir)
	if err != nil {
		return nil, nil
	}

	for _, e := range list {
		if ok, err := real.Match(real.Base(pattern), e.Name()); err != nil {
			return nil, err
		} else if ok {
			res = append(res, real.Join(dir, e.Name()))
		}
	}

	return res, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := sim.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(info), fn)
	}

	if errors.Is(err, fs.SkipDir) || errors.Is(err, fs.SkipAll) {
		return nil
	}

	return err
}

func walk(name string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(name, d, nil); err != nil || !d.IsDir() {
		if errors.Is(err, fs.SkipDir) && d.IsDir() {
			return nil
		}

		return err
	}

	list, err := sim.ReadDir(name)
	if err != nil {
		if err = fn(name, d, err); err != nil {
			return err
		}
	}

	for _, e := range list {
		if err := walk(real.Join(name, e.Name()), e, fn); err != nil {
			if errors.Is(err, fs.SkipDir) {
				break
			}

			return err
		}
	}

	return nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(name string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(name, nil, err)
		}

		info, infoErr := d.Info()
		if err == nil {
			err = infoErr
		}

		return fn(name, info, err)
	})
}

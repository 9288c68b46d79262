//go:build go1.22

package main

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/dag"
)

var fileNames = []string{
	"f", "f.txt", "f.tar.gz", ".hidden", ".hidden.ext", "f.", "f..", "f..txt", "a b.c d", "имя.расш", "f.TXT", "f.idx", "f.idn", "...", "-x.-y", "f.dir.", "ext.f",
}

type entry struct {
	dir      bool
	children map[string]*entry
}

// tree builds the scratch tree on disk and its reference.
func tree(root string, depth int) *entry {
	e := &entry{dir: true, children: map[string]*entry{}}

	for _, name := range fileNames {
		if err := os.WriteFile(filepath.Join(root, name), nil, 0o644); err != nil {
			panic(err)
		}

		e.children[name] = &entry{}
	}

	if depth > 0 {
		for _, name := range []string{"d", "d.e", ".d", "d.tar.x"} {
			if err := os.MkdirAll(filepath.Join(root, name), 0o755); err != nil {
				panic(err)
			}

			e.children[name] = tree(filepath.Join(root, name), depth-1)
		}
	}

	return e
}

// split is the specified splitting of a cleaned absolute path.
func split(abs string) (dir, name, ext string) {
	cut := strings.LastIndexByte(abs, '/')
	dir, name = abs[:cut], abs[cut+1:]

	if dir == "" {
		dir = "/"
	}

	if dot := strings.LastIndexByte(name, '.'); dot >= 0 {
		name, ext = name[:dot], name[dot:]
	}

	return dir, name, ext
}

func checkPaths(c *mc.C) {
	c.Rule("Every path spelled by walking a scratch tree: up to a number of components, each a directory, a dot, a parent reference or a redundant separator, ending in an " +
		"existing file or directory, a link to one, or in a missing name or a link leading nowhere; absolute and relative, from several working directories. Non-trivial: at least two components.")
	c.Assume("the file system root itself is not resolved: it has no base name")

	base := scratch()

	if real, err := filepath.EvalSymlinks(base); err == nil {
		base = real
	}

	root := filepath.Join(base, "tree")
	if err := os.MkdirAll(root, 0o755); err != nil {
		panic(err)
	}

	top := tree(root, 2)

	// links to a file, to a directory beside them, to nothing and to themselves
	for name, target := range map[string]string{"l.link": "f.txt", "ld.x": "d", "none.x": "nothing", "loop.x": "loop.x"} {
		if err := os.Symlink(target, filepath.Join(root, name)); err != nil {
			panic(err)
		}
	}

	top.children["l.link"] = &entry{}
	top.children["ld.x"] = top.children["d"]

	type spelled struct {
		Path   string `json:"path"`
		Clean  string `json:"clean"` // relative to the tree
		Exists bool   `json:"exists"`
	}

	walk := func(cwd []string, depth int, yield func(spelled) bool) {
		var rec func(at []string, text string, left int) bool

		find := func(at []string) *entry {
			e := top
			for _, n := range at {
				e = e.children[n]
			}

			return e
		}

		rec = func(at []string, text string, left int) bool {
			e := find(at)
			sep := ""

			if text != "" && !strings.HasSuffix(text, "/") {
				sep = "/"
			}

			clean := strings.Join(at, "/")

			if text != "" && len(at) > 0 {
				if !yield(spelled{text, clean, true}) {
					return false
				}
			}

			names := make([]string, 0, len(e.children))
			for name := range e.children {
				names = append(names, name)
			}

			sort.Strings(names)

			for _, name := range names {
				child := e.children[name]
				cc := strings.TrimPrefix(clean+"/"+name, "/")

				if child.dir {
					if left > 0 && !rec(append(append([]string{}, at...), name), text+sep+name, left-1) {
						return false
					}

					continue
				}

				if !yield(spelled{text + sep + name, cc, true}) {
					return false
				}
			}

			for _, missing := range []string{"missing", "missing.txt", "f.tx", "F", ".", ".missing", "d.f", "none.x", "loop.x"} {
				if missing == "." {
					continue
				}

				if !yield(spelled{text + sep + missing, strings.TrimPrefix(clean+"/"+missing, "/"), false}) {
					return false
				}
			}

			if left > 0 {
				if !rec(at, text+sep+".", left-1) {
					return false
				}

				if text != "" && !strings.HasSuffix(text, "//") && !rec(at, text+sep+"/", left-1) {
					return false
				}

				if len(at) > 0 && !rec(at[:len(at)-1], text+sep+"..", left-1) {
					return false
				}
			}

			return true
		}

		if cwd == nil {
			rec(nil, root, depth)
		} else {
			rec(cwd, "", depth)
		}
	}

	resolve := func(x *mc.X, s spelled) error {
		abs := filepath.Join(root, s.Clean)
		dir, name, ext, err := dag.ResolveFilePath(s.Path)

		if !s.Exists {
			x.Evals(1, 1)

			if err == nil {
				return mc.Failf("path %q does not exist but resolves to %q %q %q", s.Path, dir, name, ext)
			}

			return nil
		}

		wantDir, wantName, wantExt := split(abs)
		if err != nil || filepath.Clean(dir) != wantDir || name != wantName || ext != wantExt || filepath.Join(dir, name+ext) != abs {
			return mc.Failf("path %q resolves to %q %q %q, %v, expected %q %q %q", s.Path, dir, name, ext, err, wantDir, wantName, wantExt)
		}

		x.Evals(1, boolInt(strings.Contains(s.Path, "/")))

		return nil
	}

	depth := c.Pick(5, 7)

	mc.Family(c, "absolute", fmt.Sprintf("all absolute spellings with up to %d components", depth), func(yield func(spelled) bool) {
		walk(nil, depth, yield)
	}, resolve)

	for _, cwd := range []string{"", "d", "d.e/d", "d/.d", ".d/d.tar.x"} {
		parts := []string{}
		if cwd != "" {
			parts = strings.Split(cwd, "/")
		}

		if err := os.Chdir(filepath.Join(root, cwd)); err != nil {
			panic(err)
		}

		mc.Family(c, "relative."+cwd, fmt.Sprintf("all relative spellings with up to %d components from %q", depth, cwd), func(yield func(spelled) bool) {
			walk(parts, depth, yield)
		}, resolve)
	}

	gone := filepath.Join(base, "gone")
	if err := os.Mkdir(gone, 0o755); err != nil {
		panic(err)
	}

	if err := os.Chdir(gone); err != nil {
		panic(err)
	}

	if err := os.Remove(gone); err != nil {
		panic(err)
	}

	mc.Family(c, "vanished", "relative paths while the working directory is removed: nothing exists there, absolute paths stay", func(yield func(spelled) bool) {
		for _, sep := range []string{"", "./", "d/", "../", "../gone/"} {
			for _, name := range append([]string{"missing"}, fileNames...) {
				if !yield(spelled{sep + name, "missing", false}) || !yield(spelled{filepath.Join(root, name), name, name != "missing"}) {
					return
				}
			}
		}
	}, resolve)

	if err := os.Chdir(base); err != nil {
		panic(err)
	}

	type names struct {
		Domain string `json:"domain"`
		File   string `json:"file"`
	}

	pieces := []string{"opencorpora", "a", "a/b", "a.b", "домен", "with space", "A", ".hid", "a/b/c", "x..y", "-"}

	mc.Family(c, "domain-paths", "all pairs of 11 domains and 17 file names", func(yield func(names) bool) {
		for _, d := range pieces {
			for _, f := range fileNames {
				if !yield(names{d, f}) {
					return
				}
			}
		}
	}, func(x *mc.X, s names) error {
		data := common.GetDataPath()
		if got, want := common.DomainDataPath(s.Domain), path.Join(data, s.Domain); got != want {
			return mc.Failf("data path of domain %q is %q, expected %q", s.Domain, got, want)
		}

		if got, want := common.DomainFilePath(s.Domain, s.File), path.Join(data, s.Domain, s.File); got != want {
			return mc.Failf("path of file %q of domain %q is %q, expected %q", s.File, s.Domain, got, want)
		}

		x.Evals(1, 1)

		return nil
	})

	type create struct {
		Domains []string `json:"domains"`
		Before  string   `json:"before"`
	}

	var (
		mu sync.Mutex
		n  int
	)

	listing := func(dir string) (res []string) {
		_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err == nil && p != dir {
				rel, _ := filepath.Rel(dir, p)
				if d.IsDir() {
					rel += "/"
				}

				res = append(res, rel)
			}

			return nil
		})

		sort.Strings(res)

		return res
	}

	mc.Family(c, "domain-create", "all sequences of up to 3 data directory creations over 4 domains, with the data directory missing, present, holding files, or the domain directory holding files", func(yield func(create) bool) {
		ds := []string{"opencorpora", "a", "a/b", "x y.z"}
		for k := 1; k <= 3; k++ {
			stop := false
			mc.Each(len(ds), k, func(w []int) bool {
				for _, before := range []string{"none", "data", "data+file", "domain+file", "blocked"} {
					dom := make([]string, k)
					for i := range w {
						dom[i] = ds[w[i]]
					}

					if stop = !yield(create{dom, before}); stop {
						return false
					}
				}

				return true
			})

			if stop {
				return
			}
		}
	}, func(x *mc.X, s create) error {
		mu.Lock()
		defer mu.Unlock()

		n++
		work := filepath.Join(base, fmt.Sprintf("create%d", n))

		if err := os.MkdirAll(work, 0o755); err != nil {
			panic(err)
		}

		defer func() { _ = os.RemoveAll(work) }()

		if err := os.Chdir(work); err != nil {
			panic(err)
		}

		defer func() { _ = os.Chdir(base) }()

		data := common.GetDataPath()
		want := map[string]bool{}
		mk := func(dir string) {
			for p := dir; p != "." && p != "/"; p = path.Dir(p) {
				want[p+"/"] = true
			}
		}
		put := func(dir, name string) {
			_ = os.MkdirAll(dir, 0o755)
			_ = os.WriteFile(filepath.Join(dir, name), []byte("x"), 0o644)

			mk(dir)
			want[path.Join(dir, name)] = true
		}

		switch s.Before {
		case "data":
			_ = os.MkdirAll(data, 0o755)
			mk(data)
		case "data+file":
			put(data, "file")
		case "domain+file":
			put(path.Join(data, s.Domains[0]), "file")
		case "blocked":
			put(".", data)
		}

		for _, d := range s.Domains {
			err := common.MakeDomainDataPath(d)
			if (err != nil) != (s.Before == "blocked") {
				return mc.Failf("creating the data directory of %q (before: %s): %v", d, s.Before, err)
			}

			if err == nil {
				mk(path.Join(data, d))
			}

			wanted := make([]string, 0, len(want))
			for p := range want {
				wanted = append(wanted, p)
			}

			sort.Strings(wanted)

			if got := listing("."); strings.Join(got, "|") != strings.Join(wanted, "|") {
				return mc.Failf("after creating the data directory of %q (before: %s) there are %q, expected %q", d, s.Before, got, wanted)
			}
		}

		x.Evals(1, 1)

		return nil
	})
}

// Command instr makes instrumented copies of the packages under test and prints the overlay map replacing them.
//
// instr sched REPO OUT: scheduling points before every statement, sync replaced by the controlled one.
// instr simos REPO OUT: file system and clock replaced by the simulated world.
// instr copy MODULE OUT: the same for the files of another module of a single package, copied.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "github.com/amarin/gomorphy/internal/zz_verif/"

type edit struct {
	at, end int
	text    string
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })

	var out []byte

	pos := 0

	for _, e := range edits {
		out = append(out, src[pos:e.at]...)
		out = append(out, e.text...)
		pos = e.end
	}

	return append(out, src[pos:]...)
}

func main() {
	mode, from, out := os.Args[1], os.Args[2], os.Args[3]

	if mode == "copy" { // copy FROM OUT: a whole module of one directory, on the simulated world
		files, err := os.ReadDir(from)
		check(err)

		for _, file := range files {
			name := file.Name()
			if file.IsDir() || strings.HasSuffix(name, "_test.go") || !strings.HasSuffix(name, ".go") && name != "go.mod" {
				continue
			}

			src, err := os.ReadFile(filepath.Join(from, name))
			check(err)

			if strings.HasSuffix(name, ".go") {
				src = rewrite(filepath.Join(from, name), src, simulation)
			}

			check(os.WriteFile(filepath.Join(out, name), src, 0o644))
		}

		return
	}

	roots := map[string][]string{
		"sched": {"internal/index", "pkg/dag", "pkg/storage", "pkg/common"},
		"simos": {"internal", "pkg"},
	}[mode]
	transform := map[string]func(*token.FileSet, *ast.File) []edit{"sched": scheduling, "simos": simulation}[mode]
	replace := map[string]string{}

	for _, root := range roots {
		err := filepath.WalkDir(filepath.Join(from, root), func(file string, d os.DirEntry, err error) error {
			switch {
			case err != nil:
				return err
			case d.IsDir() && (d.Name() == "testdata" || strings.HasPrefix(d.Name(), "zz_verif") || strings.HasPrefix(d.Name(), ".")):
				return filepath.SkipDir
			case d.IsDir() || !strings.HasSuffix(file, ".go") || strings.HasSuffix(file, "_test.go"):
				return nil
			}

			src, err := os.ReadFile(file)
			check(err)

			changed := rewrite(file, src, transform)
			if string(changed) == string(src) {
				return nil
			}

			name, err := filepath.Rel(from, file)
			check(err)

			target := filepath.Join(out, strings.ReplaceAll(name, "/", "_"))
			check(os.WriteFile(target, changed, 0o644))
			replace[file] = target

			return nil
		})
		check(err)
	}

	check(json.NewEncoder(os.Stdout).Encode(replace))
}

func rewrite(name string, src []byte, transform func(*token.FileSet, *ast.File) []edit) []byte {
	fset := token.NewFileSet()

	tree, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	check(err)

	return apply(src, transform(fset, tree))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func offset(fset *token.FileSet, pos token.Pos) int { return fset.Position(pos).Offset }

// imports replaces import paths, keeping the names the files use.
func imports(fset *token.FileSet, tree *ast.File, replaced map[string]string) (edits []edit) {
	for _, spec := range tree.Imports {
		path, _ := strconv.Unquote(spec.Path.Value)

		target, ok := replaced[path]
		if !ok {
			continue
		}

		text := strconv.Quote(target)
		if spec.Name == nil {
			text = path[strings.LastIndex(path, "/")+1:] + " " + text
		}

		edits = append(edits, edit{offset(fset, spec.Path.Pos()), offset(fset, spec.Path.End()), text})
	}

	return edits
}

// scheduling puts a scheduling point before every statement.
func scheduling(fset *token.FileSet, tree *ast.File) []edit {
	edits := imports(fset, tree, map[string]string{"sync": base + "sched"})
	points := 0

	list := func(stmts []ast.Stmt) {
		for _, stmt := range stmts {
			at := offset(fset, stmt.Pos())
			edits = append(edits, edit{at, at, "zzsched.Point(); "})
			points++
		}
	}

	ast.Inspect(tree, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			list(v.List)
		case *ast.CaseClause:
			list(v.Body)
		case *ast.CommClause:
			list(v.Body)
		case *ast.SwitchStmt: // clauses are not statements to put anything before
			if v.Init != nil {
				ast.Inspect(v.Init, func(ast.Node) bool { return true })
			}

			for _, clause := range v.Body.List {
				walkClause(clause, list)
			}

			return false
		case *ast.TypeSwitchStmt:
			for _, clause := range v.Body.List {
				walkClause(clause, list)
			}

			return false
		case *ast.SelectStmt:
			for _, clause := range v.Body.List {
				walkClause(clause, list)
			}

			return false
		}

		return true
	})

	if points > 0 {
		at := offset(fset, tree.Name.End())
		edits = append(edits, edit{at, at, "; import zzsched " + strconv.Quote(base+"sched")})
	}

	return edits
}

// walkClause visits the statements of a case, with nested blocks.
func walkClause(clause ast.Stmt, list func([]ast.Stmt)) {
	var visit func(n ast.Node) bool

	visit = func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			list(v.List)
		case *ast.CaseClause:
			list(v.Body)
		case *ast.CommClause:
			list(v.Body)
		case *ast.SwitchStmt:
			for _, c := range v.Body.List {
				ast.Inspect(c, visit)
			}

			return false
		case *ast.TypeSwitchStmt:
			for _, c := range v.Body.List {
				ast.Inspect(c, visit)
			}

			return false
		case *ast.SelectStmt:
			for _, c := range v.Body.List {
				ast.Inspect(c, visit)
			}

			return false
		}

		return true
	}

	ast.Inspect(clause, visit)
}

// simulation replaces packages giving access to files and time.
func simulation(fset *token.FileSet, tree *ast.File) []edit {
	return imports(fset, tree, map[string]string{
		"os": "verif.local/sim/os", "io/ioutil": "verif.local/sim/ioutil", "time": "verif.local/sim/time",
		"path/filepath": "verif.local/sim/filepath",
	})
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// repoDir is the tree to check.
var repoDir = envOr("VERIF_REPO", "/repo")

// instrument writes copies of the source files of /repo, in which there is a
// scheduling point before every statement, to dir, and returns the name of a
// file that describes the overlay.
//
// If values is true, there is also a scheduling point between the evaluation
// of a value and its assignment.
//
// If race is true, pools of the standard library do not order the goroutines
// that use them, which would hide races from the race detector.
func instrument(dir string, values, race bool) (string, error) {
	replace := map[string]string{}
	maps := mapRanges(dir)
	site := 0
	err := filepath.WalkDir(repoDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		name := d.Name()
		if d.IsDir() {
			if p != repoDir && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor") {
				return filepath.SkipDir
			}
			if p != repoDir {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") || strings.HasSuffix(name, ".pb.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, ok := instrumentFile(src, &site, values, maps[p], false)
		if !ok {
			return nil
		}
		dst := filepath.Join(dir, fmt.Sprintf("f%d.go", len(replace)))
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return err
		}
		replace[p] = dst
		return nil
	})
	if err != nil {
		return "", err
	}
	for p, m := range maps {
		if strings.HasPrefix(p, repoDir+"/") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return "", err
		}
		if out, ok := instrumentFile(src, &site, false, m, true); ok {
			dst := filepath.Join(dir, fmt.Sprintf("f%d.go", len(replace)))
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				return "", err
			}
			replace[p] = dst
		}
	}
	if race {
		if p, src, ok := emptyPools(); ok {
			dst := filepath.Join(dir, "pool.go")
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				return "", err
			}
			replace[p] = dst
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

// emptyPools returns the name and changed source of the implementation of
// sync.Pool, such that nothing is ever put into a pool.
func emptyPools() (string, []byte, bool) {
	cmd := exec.Command("go", "env", "GOROOT")
	out, err := cmd.Output()
	if err != nil {
		return "", nil, false
	}
	p := filepath.Join(strings.TrimSpace(string(out)), "src/sync/pool.go")
	src, err := os.ReadFile(p)
	if err != nil {
		return "", nil, false
	}
	const put = "func (p *Pool) Put(x any) {\n\tif x == nil {"
	if bytes.Count(src, []byte(put)) != 1 {
		return "", nil, false
	}
	return p, bytes.Replace(src, []byte(put), []byte(strings.Replace(put, "x == nil", "x == nil || race.Enabled", 1)), 1), true
}

// edit replaces the source from pos to end.
type edit struct {
	pos, end int
	text     string
	order    int
}

// instrumentFile returns the instrumented source of a file. If mapsOnly is true,
// only the order of iteration over maps is changed.
func instrumentFile(src []byte, site *int, values bool, maps map[int]bool, mapsOnly bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	add := func(pos, end int, text string) { es = append(es, edit{pos, end, text, len(es)}) }
	const pkg = "verifsched"

	// simple expressions have no side effects.
	var simple func(e ast.Expr) bool
	simple = func(e ast.Expr) bool {
		switch e := e.(type) {
		case *ast.Ident:
			return e.Name != "_"
		case *ast.SelectorExpr:
			return simple(e.X)
		case *ast.StarExpr:
			return simple(e.X)
		}
		return false
	}
	assign := func(s *ast.AssignStmt) {
		if !values || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
			return
		}
		switch {
		case s.Tok == token.ASSIGN:
			switch s.Rhs[0].(type) {
			case *ast.CallExpr:
				if id, ok := s.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
					return
				}
				add(off(s.Rhs[0].Pos()), off(s.Rhs[0].Pos()), pkg+".Val(")
				add(off(s.Rhs[0].End()), off(s.Rhs[0].End()), ")")
			case *ast.BinaryExpr:
				b := s.Rhs[0].(*ast.BinaryExpr)
				if simple(b.X) && b.Op != token.EQL && b.Op != token.NEQ && b.Op != token.LSS && b.Op != token.LEQ && b.Op != token.GTR && b.Op != token.GEQ {
					add(off(b.X.Pos()), off(b.X.Pos()), pkg+".Val(")
					add(off(b.X.End()), off(b.X.End()), ")")
				}
			}
		case s.Tok != token.DEFINE && simple(s.Lhs[0]):
			// x += y becomes x = Val(x) + (y).
			op := strings.TrimSuffix(s.Tok.String(), "=")
			lhs := string(src[off(s.Lhs[0].Pos()):off(s.Lhs[0].End())])
			add(off(s.TokPos), off(s.TokPos)+len(s.Tok.String()), "= "+pkg+".Val("+lhs+") "+op+" (")
			add(off(s.Rhs[0].End()), off(s.Rhs[0].End()), ")")
		}
	}
	list := func(l []ast.Stmt) {
		if mapsOnly {
			return
		}
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			*site++
			add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("%s.Point(%d); ", pkg, *site))
			if ls, ok := s.(*ast.LabeledStmt); ok {
				s = ls.Stmt
			}
			switch s := s.(type) {
			case *ast.AssignStmt:
				assign(s)
			case *ast.IncDecStmt:
				if values && simple(s.X) {
					x := string(src[off(s.X.Pos()):off(s.X.End())])
					add(off(s.TokPos), off(s.TokPos)+2, "= "+pkg+".Val("+x+") "+s.Tok.String()[:1]+" 1")
				}
			case *ast.GoStmt:
				c := s.Call
				add(off(s.Go), off(c.Fun.Pos()), "{ verifF := ")
				add(off(c.Lparen), off(c.Lparen)+1, "; ")
				var args []string
				for i, a := range c.Args {
					n := fmt.Sprintf("verifA%d", i)
					end := off(c.Rparen) + 1
					if i+1 < len(c.Args) {
						end = off(c.Args[i+1].Pos())
					}
					_, lit := a.(*ast.BasicLit)
					if id, ok := a.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
						lit = true
					}
					if lit {
						n = string(src[off(a.Pos()):off(a.End())])
						add(off(a.Pos()), end, "")
					} else {
						add(off(a.Pos()), off(a.Pos()), n+" := ")
						add(off(a.End()), end, "; ")
					}
					if c.Ellipsis.IsValid() && i == len(c.Args)-1 {
						n += "..."
					}
					args = append(args, n)
				}
				if len(c.Args) == 0 {
					add(off(c.Lparen)+1, off(c.Rparen)+1, "")
				}
				add(off(c.Rparen)+1, off(c.Rparen)+1, pkg+".Go(func() { verifF("+strings.Join(args, ", ")+") }) }")
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.RangeStmt:
			if maps[off(n.Pos())] {
				add(off(n.X.Pos()), off(n.X.Pos()), pkg+".Sorted(")
				add(off(n.X.End()), off(n.X.End()), ")")
			}
		}
		return true
	})
	if len(es) == 0 {
		return nil, false
	}
	// Clauses are statements as well; there is nothing to insert before them.
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		if (es[i].end == es[i].pos) != (es[j].end == es[j].pos) {
			return es[i].end == es[i].pos
		}
		return es[i].order < es[j].order
	})
	var b strings.Builder
	at := 0
	nameEnd := off(f.Name.End())
	imported := false
	for _, e := range es {
		if !imported && e.pos >= nameEnd {
			b.Write(src[at:nameEnd])
			b.WriteString("; import " + pkg + " \"github.com/dogmatiq/testkit/verifmc/sched\"")
			at = nameEnd
			imported = true
		}
		if clause[e.pos] && strings.Contains(e.text, ".Point(") {
			continue
		}
		if e.pos < at {
			return nil, false // overlapping edits
		}
		b.Write(src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	b.WriteString("\nvar _ = " + pkg + ".Point\n")
	return []byte(b.String()), true
}

// orderedDep returns true for dependencies whose iteration over maps determines
// what the code under test does.
func orderedDep(path string) bool {
	return path == "github.com/dogmatiq/configkit"
}

// mapRanges returns, for each source file, the offsets of the statements that
// range over a map. Their order is made deterministic. It is not an error if
// this is impossible.
func mapRanges(dir string) map[string]map[int]bool {
	r := map[string]map[int]bool{}
	if err := modFiles(dir); err != nil {
		return r
	}
	cmd := exec.Command("go", "list", "-mod=mod", "-modfile="+filepath.Join(dir, "go.mod"), "-export", "-deps",
		"-json=ImportPath,Export,Dir,GoFiles", "github.com/dogmatiq/testkit/...")
	cmd.Dir = "/verif/mc"
	cmd.Env = append(os.Environ(), "GOFLAGS=")
	out, err := cmd.Output()
	if err != nil {
		return r
	}
	type pkg struct {
		ImportPath, Export, Dir string
		GoFiles                 []string
	}
	exports := map[string]string{}
	var own []pkg
	for dec := json.NewDecoder(bytes.NewReader(out)); ; {
		var p pkg
		if dec.Decode(&p) != nil {
			break
		}
		exports[p.ImportPath] = p.Export
		if p.Dir == repoDir || strings.HasPrefix(p.Dir, repoDir+"/") || orderedDep(p.ImportPath) {
			own = append(own, p)
		}
	}
	for _, p := range own {
		fset := token.NewFileSet()
		var files []*ast.File
		for _, n := range p.GoFiles {
			if f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), nil, 0); err == nil {
				files = append(files, f)
			}
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{
			Error: func(error) {},
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				return os.Open(exports[path])
			}),
		}
		conf.Check(p.ImportPath, fset, files, info)
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				rs, ok := n.(*ast.RangeStmt)
				if !ok {
					return true
				}
				t := info.TypeOf(rs.X)
				if t == nil {
					return true
				}
				if _, ok := t.Underlying().(*types.Map); ok {
					pos := fset.Position(rs.Pos())
					if r[pos.Filename] == nil {
						r[pos.Filename] = map[int]bool{}
					}
					r[pos.Filename][pos.Offset] = true
				}
				return true
			})
		}
	}
	return r
}

// modFiles copies go.mod and go.sum to dir.
func modFiles(dir string) error {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join("/verif/mc", f))
		if err != nil {
			return err
		}
		b = bytes.ReplaceAll(b, []byte("=> /repo"), []byte("=> "+repoDir))
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// buildSched builds the model checker with scheduling points in the code under
// test and returns the name of the executable.
func buildSched(dir string, race bool) (string, error) {
	var last string
	for _, values := range []bool{true, false} {
		d, err := os.MkdirTemp(dir, "overlay")
		if err != nil {
			return "", err
		}
		ov, err := instrument(d, values, race)
		if err != nil {
			return "", err
		}
		if err := modFiles(d); err != nil {
			return "", err
		}
		bin := filepath.Join(d, "mcsched")
		args := []string{"build", "-mod=mod", "-modfile=" + filepath.Join(d, "go.mod"), "-buildvcs=false", "-overlay", ov, "-o", bin}
		if race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, ".")...)
		cmd.Dir = "/verif/mc"
		// The index of the module cache does not know the overlay.
		cmd.Env = append(os.Environ(), "GOFLAGS=", "GODEBUG=goindex=0")
		out, err := cmd.CombinedOutput()
		if err == nil {
			return bin, nil
		}
		last = string(out)
	}
	return "", fmt.Errorf("cannot build with scheduling points:\n%s", last)
}

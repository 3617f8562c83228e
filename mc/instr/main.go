// Command instr writes copies of the library's sources in which accesses to package-level variables are scheduling
// points and package sync is the scheduler's, and prints the overlay entries for them.
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	syncPath   = "github.com/breml/logstash-config/internal/verifsync"
	atomicPath = "github.com/breml/logstash-config/internal/verifatomic"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	var dirs []string
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err != nil || !i.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		base := filepath.Base(p)
		if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || rel == "cmd" || rel == "internal/app" || strings.HasPrefix(rel, "internal/verif")) {
			return filepath.SkipDir
		}
		dirs = append(dirs, p)
		return nil
	})
	n := 0
	for _, d := range dirs {
		n += instrument(d, out, &n)
	}
}

type insertion struct {
	off  int
	text string
	end  int // replaces up to here
}

func instrument(dir, out string, seq *int) int {
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	src := map[string][]byte{}
	for _, name := range names {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(dir, filepath.Base(name)); err != nil || !ok {
			continue
		}
		b, err := os.ReadFile(name)
		check(err)
		f, err := parser.ParseFile(fset, name, b, parser.ParseComments)
		check(err)
		if f.Name.Name == "main" {
			continue
		}
		files[name], src[name] = f, b
	}
	vars := map[string]bool{}
	specs := map[interface{}]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				if usesSync(v) {
					// Its operations are scheduling points of their own.
					continue
				}
				specs[v] = true
				for _, id := range v.Names {
					if id.Name != "_" {
						vars[id.Name] = true
					}
				}
			}
		}
	}
	n := 0
	for name, f := range files {
		var ins []insertion
		tf := fset.File(f.Pos())
		off := func(p token.Pos) int { return tf.Offset(p) }
		for _, i := range f.Imports {
			path, _ := strconv.Unquote(i.Path.Value)
			to := map[string]string{"sync": syncPath, "sync/atomic": atomicPath}[path]
			if to == "" {
				continue
			}
			text := strconv.Quote(to)
			if i.Name == nil {
				text = filepath.Base(path) + " " + text
			}
			ins = append(ins, insertion{off(i.Path.Pos()), text, off(i.Path.End())})
		}
		points := 0
		// mentions reports whether the statement itself (not the statements in blocks within it) uses a variable.
		mentions := func(s ast.Stmt) bool {
			found := false
			var visit func(ast.Node) bool
			visit = func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					return false
				case *ast.SelectorExpr:
					ast.Inspect(n.X, visit)
					return false
				case *ast.CommClause, *ast.CaseClause:
					return false
				case *ast.GoStmt, *ast.SendStmt:
					found = true
				case *ast.Ident:
					if vars[n.Name] && (n.Obj == nil || specs[n.Obj.Decl]) {
						found = true
					}
				}
				return true
			}
			ast.Inspect(s, visit)
			return found
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				if mentions(s) {
					ins = append(ins, insertion{off(s.Pos()), "verifpoint.Point(verifpoint.KindVar); ", off(s.Pos())})
					points++
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
		}
		if points > 0 {
			ins = append(ins, insertion{off(f.Name.End()), "; import verifpoint " + strconv.Quote(syncPath), off(f.Name.End())})
		}
		if len(ins) == 0 {
			continue
		}
		sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
		var b strings.Builder
		pos := 0
		for _, x := range ins {
			b.Write(src[name][pos:x.off])
			b.WriteString(x.text)
			pos = x.end
		}
		b.Write(src[name][pos:])
		dst := filepath.Join(out, fmt.Sprintf("instr%d_%s", *seq+n, filepath.Base(name)))
		check(os.WriteFile(dst, []byte(b.String()), 0o644))
		fmt.Printf(",%s:%s", strconv.Quote(name), strconv.Quote(dst))
		n++
	}
	return n
}

// usesSync reports whether the variable is declared as something of package sync or sync/atomic.
func usesSync(v *ast.ValueSpec) bool {
	found := false
	top := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.UnaryExpr:
				e = x.X
				continue
			case *ast.StarExpr:
				e = x.X
				continue
			case *ast.CompositeLit:
				e = x.Type
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && (id.Name == "sync" || id.Name == "atomic") {
					found = true
				}
			}
			return
		}
	}
	if v.Type != nil {
		top(v.Type)
	}
	for _, e := range v.Values {
		top(e)
	}
	return found
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

// instr rewrites /repo's non-test sources into a build overlay: package net is replaced by vnet (in the
// receiver), go statements start their goroutine through vgo, package sync is replaced by vsync, and, in
// mode sched, every statement is preceded by a scheduling point. Mode net only replaces package net. Mode maps instead
// puts the iteration order of maps into the harness's hands.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

var builtins = map[string]bool{"append": true, "cap": true, "clear": true, "close": true, "complex": true, "copy": true, "delete": true, "imag": true,
	"len": true, "make": true, "max": true, "min": true, "new": true, "panic": true, "print": true, "println": true, "real": true, "recover": true}

func main() {
	mode := flag.String("mode", "sim", "sim, sched, maps or net")
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	replace := map[string]string{}
	dirs := map[string][]string{} // mode maps
	for _, root := range []string{"cli/receiver", "libs"} {
		err := filepath.Walk(filepath.Join(*repo, root), func(path string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(*repo, path)
			if fi.IsDir() {
				if strings.Contains(rel, "storage/store/") || fi.Name() == "testdata" {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || strings.Contains(rel, "storage/store/") {
				return nil
			}
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			if *mode == "maps" {
				if !strings.HasPrefix(rel, "cli/receiver/") {
					return nil
				}
				dirs[filepath.Dir(path)] = append(dirs[filepath.Dir(path)], path)
				return nil
			}
			res, changed, err := rewrite(path, src, *mode)
			if err != nil || !changed {
				return err
			}
			dst := filepath.Join(*out, rel)
			os.MkdirAll(filepath.Dir(dst), 0o755)
			replace[path] = dst
			return os.WriteFile(dst, res, 0o644)
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	for _, files := range dirs {
		if err := maps(files, *repo, *out, replace); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	os.MkdirAll(*out, 0o755)
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func rewrite(path string, src []byte, mode string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	if f.Name.Name == "main" {
		return nil, false, nil
	}
	if len(f.Comments) > 0 && strings.Contains(string(src[:min(len(src), 400)]), "DO NOT EDIT") {
		return nil, false, nil
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	add := func(from, to int, s string) { es = append(es, edit{from, to, s}) }
	swap := map[string]string{`"net"`: "net verif.local/mc/vnet", `"sync"`: "sync verif.local/mc/vsync"}
	if mode == "net" { // for the race detector: what synchronises stays as it is
		delete(swap, `"sync"`)
	}
	for _, im := range f.Imports {
		if s, ok := swap[im.Path.Value]; ok {
			name, p, _ := strings.Cut(s, " ")
			if im.Name != nil {
				name = ""
			} else {
				name += " "
			}
			add(off(im.Path.Pos()), off(im.Path.End()), name+`"`+p+`"`)
		}
	}
	needGo, needP := false, false
	ast.Inspect(f, func(n ast.Node) bool {
		g, ok := n.(*ast.GoStmt)
		if !ok || mode == "net" {
			return true
		}
		call := g.Call
		if id, ok := call.Fun.(*ast.Ident); ok && builtins[id.Name] {
			return true
		}
		needGo = true
		name := "vmcgo.Spawn"
		if call.Ellipsis.IsValid() {
			name = "vmcgo.SpawnV"
		}
		add(off(call.Fun.Pos()), off(call.Fun.Pos()), name+"(")
		if len(call.Args) == 0 {
			add(off(call.Fun.End()), off(call.Rparen), "")
			add(off(call.Rparen)+1, off(call.Rparen)+1, "()")
		} else {
			add(off(call.Lparen), off(call.Lparen)+1, ", ")
			if call.Ellipsis.IsValid() {
				add(off(call.Ellipsis), off(call.Ellipsis)+3, "...")
			}
			add(off(call.Rparen)+1, off(call.Rparen)+1, "()")
		}
		return true
	})
	if mode == "sched" {
		point := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				needP = true
				add(off(s.Pos()), off(s.Pos()), "vmcsched.P(); ")
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					// the body of a switch or select holds clauses, not statements
					if len(n.List) > 0 {
						switch n.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					point(n.List)
				case *ast.CaseClause:
					point(n.Body)
				case *ast.CommClause:
					point(n.Body)
				}
				return true
			})
		}
	}
	if len(es) == 0 {
		return nil, false, nil
	}
	imp := ""
	if needGo {
		imp += `; import vmcgo "verif.local/mc/vgo"`
	}
	if needP {
		imp += `; import vmcsched "verif.local/mc/vsched"`
	}
	if imp != "" {
		e := off(f.Name.End())
		add(e, e, imp)
	}
	return apply(path, src, es)
}

func apply(path string, src []byte, es []edit) ([]byte, bool, error) {
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	var b []byte
	at := 0
	for _, e := range es {
		if e.from < at {
			return nil, false, fmt.Errorf("%s: overlapping edits at %d", path, e.from)
		}
		b = append(b, src[at:e.from]...)
		b = append(b, e.text...)
		at = e.to
	}
	return append(b, src[at:]...), true, nil
}

// none stands for every imported package: only types declared in the package itself are known.
type none struct{}

func (none) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
	p.MarkComplete()
	return p, nil
}

// maps puts the iteration order of every range over a map in the package into the harness's hands.
func maps(files []string, repo, out string, replace map[string]string) error {
	fset := token.NewFileSet()
	var fs []*ast.File
	var srcs [][]byte
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		fs, srcs = append(fs, f), append(srcs, src)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: none{}, Error: func(error) {}, FakeImportC: true}
	conf.Check("p", fset, fs, info)
	for i, f := range fs {
		var es []edit
		ast.Inspect(f, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok {
				return true
			}
			t := info.Types[r.X].Type
			if t == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Map); !ok {
				return true
			}
			a, b := fset.Position(r.X.Pos()).Offset, fset.Position(r.X.End()).Offset
			es = append(es, edit{a, a, "vmcmap.Seq("}, edit{b, b, ")"})
			return true
		})
		if len(es) == 0 {
			continue
		}
		e := fset.Position(f.Name.End()).Offset
		es = append(es, edit{e, e, `; import vmcmap "verif.local/mc/vmap"`}, edit{0, 0, "//go:build go1.23\n\n"})
		res, _, err := apply(files[i], srcs[i], es)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, files[i])
		dst := filepath.Join(out, rel)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			return err
		}
		replace[files[i]] = dst
	}
	return nil
}

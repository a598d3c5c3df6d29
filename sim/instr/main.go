// Command instr writes copies of the repository's Go files with a scheduling
// point before every statement.
//
//	instr REPO OUTDIR
//
// It prints a JSON object: {"Replace": {original: copy}}, and writes
// OUTDIR/sites.txt (site number, file:line).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Directories left alone: leaf arithmetic (called once per ray-object test,
// no state at all), programs, dead code.
var skip = map[string]bool{"geom": true, "imagef/colorf": true, "util": true, "examples": true, "trash": true, ".git": true, "testdata": true, "assets": true, "doc": true}

func main() {
	repo, out := os.Args[1], os.Args[2]
	repl := map[string]string{}
	var sites []string
	var files []string
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if skip[rel] || strings.HasPrefix(filepath.Base(rel), ".") && rel != "." {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, rel)
		}
		return nil
	})
	sort.Strings(files)
	for _, rel := range files {
		p := filepath.Join(repo, rel)
		src, err := os.ReadFile(p)
		if err != nil {
			fatal(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			fatal(err) // the build will fail as well
		}
		type ins struct {
			off  int
			text string
		}
		var list []ins
		add := func(pos token.Pos) {
			sites = append(sites, fmt.Sprintf("%s:%d", rel, fset.Position(pos).Line))
			list = append(list, ins{fset.Position(pos).Offset, fmt.Sprintf("simrt_.Y(%d);", len(sites))})
		}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				add(s.Pos())
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					add(n.Body.Lbrace + 1)
				}
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					add(n.Body.Lbrace + 1)
				}
			}
			return true
		})
		if len(list) == 0 {
			continue
		}
		list = append(list, ins{fset.Position(f.Name.End()).Offset, `; import simrt_ "simrt"`})
		sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
		var b bytes.Buffer
		last := 0
		for _, in := range list {
			b.Write(src[last:in.off])
			b.WriteString(in.text)
			last = in.off
		}
		b.Write(src[last:])
		dst := filepath.Join(out, "repo", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0777); err != nil {
			fatal(err)
		}
		if err := os.WriteFile(dst, b.Bytes(), 0666); err != nil {
			fatal(err)
		}
		repl[p] = dst
	}
	var b bytes.Buffer
	for i, s := range sites {
		fmt.Fprintln(&b, i+1, s)
	}
	if err := os.WriteFile(filepath.Join(out, "sites.txt"), b.Bytes(), 0666); err != nil {
		fatal(err)
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"Replace": repl})
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// instrument writes copies of the source files under test in which every operation on sync and
// sync/atomic first calls sym.At, and an overlay for the go command that uses them. The native
// runner built with it can execute the schedule of a candidate exactly.
func instrument(out string) error {
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: harnessDir()}, repoPath+"/...")
	if err != nil {
		return err
	}
	overlay := map[string]string{}
	for _, p := range ps {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				return err
			}
			type edit struct {
				at   int
				text string
			}
			var edits []edit
			off := func(n ast.Node, end bool) int {
				if end {
					return p.Fset.Position(n.End()).Offset
				}
				return p.Fset.Position(n.Pos()).Offset
			}
			deferred := map[*ast.CallExpr]bool{}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.GoStmt:
					deferred[x.Call] = false
				case *ast.DeferStmt:
					deferred[x.Call] = true
				case *ast.CallExpr:
					s, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr)
					if !ok {
						return true
					}
					fn, ok := p.TypesInfo.Uses[s.Sel].(*types.Func)
					if !ok || fn.Pkg() == nil {
						return true
					}
					sig := fn.Type().(*types.Signature)
					if q := fn.Pkg().Path(); q != "sync/atomic" && !(q == "sync" && sig.Recv() != nil) || sig.TypeParams().Len() > 0 {
						return true
					}
					d, special := deferred[x]
					if special && !d {
						return true
					}
					if d {
						edits = append(edits, edit{off(x, false), "func() { "}, edit{off(x, true), " }()"})
					}
					edits = append(edits, edit{off(x.Fun, false), "zzsym.At("}, edit{off(x.Fun, true), ")"})
				}
				return true
			})
			if len(edits) == 0 {
				continue
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
			var b strings.Builder
			if !strings.Contains(string(src[:off(f.Name, false)]), "//go:build") {
				b.WriteString("//go:build go1.18\n\n")
			}
			last := 0
			cut := func(to int, text string) {
				b.Write(src[last:to])
				b.WriteString(text)
				last = to
			}
			cut(off(f.Name, true), "; import zzsym \"verif/harness/sym\"")
			for _, e := range edits {
				cut(e.at, e.text)
			}
			cut(len(src), "")
			to := filepath.Join(out, fmt.Sprintf("f%d.go", len(overlay)))
			if err := os.WriteFile(to, []byte(b.String()), 0o644); err != nil {
				return err
			}
			overlay[name] = to
		}
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
}

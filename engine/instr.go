package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// instrument writes copies of the package's files with a possible preemption point before every
// statement that synchronizes (or, for the files listed in all, before every statement), and
// prints the overlay map. Line numbers are kept.
//
// With a shim directory, references to functions of the operating system that the shim package
// (verif/harness/vsys) defines are redirected to it: os.X to vsys.OsX, syscall.X to vsys.SysX,
// signal.X to vsys.SigX, ioutil.X to vsys.IoutilX, time.X to vsys.TimeX, net.X to vsys.NetX. Yield points are then only inserted into the
// files listed in all, or, with "sync" in all, into every file.
func instrument(dir, outDir, shim string, all map[string]bool) error {
	shimmed, err := shimNames(shim)
	if err != nil {
		return err
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	overlay := map[string]string{}
	ctx := build.Default
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		path := filepath.Join(dir, n)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			continue
		}
		type ins struct {
			off  int
			text string
		}
		var at []ins
		count := 0
		list := func(l []ast.Stmt, everything bool) {
			for _, s := range l {
				switch s.(type) {
				case *ast.BlockStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				if !everything && !syncs(s) {
					continue
				}
				if _, ok := s.(*ast.LabeledStmt); ok {
					continue
				}
				count++
				at = append(at, ins{fset.Position(s.Pos()).Offset, fmt.Sprintf("vrt__.Yield(%q); ", fmt.Sprintf("%s:%d.%d", n, fset.Position(s.Pos()).Line, count))})
			}
		}
		repl := map[int]string{}
		uses := ""
		if shim != "" {
			uses = redirectCalls(f, fset, shimmed, repl)
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			if shim != "" && !all[n] && !all["sync"] {
				return false
			}
			switch x := nd.(type) {
			case *ast.BlockStmt:
				list(x.List, all[n])
			case *ast.CaseClause:
				list(x.Body, all[n])
			case *ast.CommClause:
				list(x.Body, all[n])
			}
			return true
		})
		if count == 0 && len(repl) == 0 {
			continue
		}
		imp := ""
		if count > 0 {
			imp += `; import vrt__ "verif/harness/vrt"`
		}
		if len(repl) > 0 {
			imp += `; import vsys__ "verif/harness/vsys"`
		}
		at = append(at, ins{fset.Position(f.Name.End()).Offset, imp})
		sort.SliceStable(at, func(i, j int) bool { return at[i].off < at[j].off })
		var b strings.Builder
		p := 0
		copyTo := func(end int) {
			for off := p; off < end; off++ {
				if t, ok := repl[off]; ok {
					// the text names the end of what it replaces
					i := strings.IndexByte(t, ' ')
					n, _ := strconv.Atoi(t[:i])
					b.WriteString(t[i+1:])
					off = n - 1
					continue
				}
				b.WriteByte(src[off])
			}
			p = end
		}
		for _, i := range at {
			copyTo(i.off)
			b.WriteString(i.text)
		}
		copyTo(len(src))
		b.WriteString(uses)
		out := filepath.Join(outDir, n)
		if err := os.WriteFile(out, []byte(b.String()), 0o644); err != nil {
			return err
		}
		overlay[path] = out
	}
	j, _ := json.Marshal(overlay)
	fmt.Println(string(j))
	return nil
}

var shimPkgs = map[string][2]string{"os": {"Os", "Getpid"}, "syscall": {"Sys", "Getpid"}, "os/signal": {"Sig", "Stop"}, "io/ioutil": {"Ioutil", "ReadAll"}, "time": {"Time", "Second"}, "net": {"Net", "ParseIP"}}

func shimNames(dir string) (map[string]bool, error) {
	names := map[string]bool{}
	if dir == "" {
		return names, nil
	}
	pkgs, err := parser.ParseDir(token.NewFileSet(), dir, nil, 0)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil {
						names[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							names[y.Name.Name] = true
						case *ast.ValueSpec:
							for _, id := range y.Names {
								names[id.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return names, nil
}

// redirectCalls records the replacements of references to shimmed functions; what it returns goes to the
// end of the file and keeps the imports used.
func redirectCalls(f *ast.File, fset *token.FileSet, names map[string]bool, repl map[int]string) string {
	local := map[string][2]string{}
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, "\"")
		sp, ok := shimPkgs[path]
		if !ok {
			continue
		}
		name := path[strings.LastIndexByte(path, '/')+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		local[name] = sp
	}
	used := map[string]bool{}
	ast.Inspect(f, func(nd ast.Node) bool {
		sel, ok := nd.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		sp, ok := local[id.Name]
		if !ok || !names[sp[0]+sel.Sel.Name] {
			return true
		}
		used[id.Name] = true
		repl[fset.Position(sel.Pos()).Offset] = fmt.Sprintf("%d vsys__.%s", fset.Position(sel.End()).Offset, sp[0]+sel.Sel.Name)
		return true
	})
	out := ""
	for n := range used {
		out += fmt.Sprintf("\nvar _ = %s.%s\n", n, local[n][1])
	}
	return out
}

var syncCalls = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "Wait": true, "Do": true, "Signal": true, "Broadcast": true, "close": true,
	"KickRead": true, "IsReading": true, "Write": true, "Read": true, "Refresh": true, "Flush": true}

func syncs(s ast.Stmt) bool {
	found := false
	if _, ok := s.(*ast.SelectStmt); ok {
		return true
	}
	if d, ok := s.(*ast.DeferStmt); ok {
		_ = d
		return false
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.SendStmt, *ast.GoStmt:
			found = true
		case *ast.CallExpr:
			name := ""
			switch f := x.Fun.(type) {
			case *ast.Ident:
				name = f.Name
			case *ast.SelectorExpr:
				name = f.Sel.Name
				if id, ok := f.X.(*ast.Ident); ok && id.Name == "atomic" {
					found = true
				}
			}
			if syncCalls[name] {
				found = true
			}
		}
		return !found
	})
	return found
}

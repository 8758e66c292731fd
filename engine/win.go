package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// windowsFiles makes the Windows-only files of the package part of it here: their build constraints are
// removed, and what talks to the kernel is left to the given stub, which is added to the package. Files
// which declare what this system's files declare, too, stay out. Changed in them:
//
//   - functions the stub defines, and init functions, are left out
//   - uintptr(unsafe.Pointer(e)) becomes verifRef(e), (*T)(unsafe.Pointer(e)) becomes verifAs_T(e)
//
// Line numbers are kept. It prints the overlay map.
func windowsFiles(dir, outDir, stub string) error {
	sb, err := os.ReadFile(stub)
	if err != nil {
		return err
	}
	sf, err := parser.ParseFile(token.NewFileSet(), stub, sb, 0)
	if err != nil {
		return err
	}
	stubs := map[string]bool{"init": true}
	for n := range declared(sf) {
		stubs[n] = true
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	here, win := build.Default, build.Default
	win.GOOS = "windows"
	type file struct {
		name string
		src  []byte
		fset *token.FileSet
		f    *ast.File
	}
	var files []file
	names := map[string]bool{}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		isHere, _ := here.MatchFile(dir, n)
		isWin, _ := win.MatchFile(dir, n)
		if !isHere && !isWin {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if isHere {
			for d := range declared(f) {
				names[d] = true
			}
			continue
		}
		files = append(files, file{n, src, fset, f})
	}
	overlay := map[string]string{}
	for _, f := range files {
		conflict := false
		for d := range declared(f.f) {
			if names[d] && d != "init" {
				conflict = true
			}
		}
		if conflict {
			continue
		}
		type edit struct {
			from, to int
			text     string
		}
		var edits []edit
		off := func(p token.Pos) int { return f.fset.Position(p).Offset }
		blank := func(from, to int) {
			edits = append(edits, edit{from, to, strings.Repeat("\n", strings.Count(string(f.src[from:to]), "\n"))})
		}
		for _, c := range f.f.Comments {
			if c.Pos() < f.f.Package {
				blank(off(c.Pos()), off(c.End()))
			}
		}
		for _, d := range f.f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && stubs[funcName(fd)] {
				blank(off(d.Pos()), off(d.End()))
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok || len(c.Args) != 1 {
					return true
				}
				in, ok := ast.Unparen(c.Args[0]).(*ast.CallExpr)
				if !ok || len(in.Args) != 1 {
					return true
				}
				sel, ok := in.Fun.(*ast.SelectorExpr)
				if !ok || sel.Sel.Name != "Pointer" {
					return true
				}
				arg := string(f.src[off(in.Args[0].Pos()):off(in.Args[0].End())])
				switch t := ast.Unparen(c.Fun).(type) {
				case *ast.Ident:
					if t.Name == "uintptr" {
						edits = append(edits, edit{off(c.Pos()), off(c.End()), "verifRef(" + arg + ")"})
						return false
					}
				case *ast.StarExpr:
					if id, ok := t.X.(*ast.Ident); ok && stubs["verifAs"+id.Name] {
						edits = append(edits, edit{off(c.Pos()), off(c.End()), "verifAs" + id.Name + "(" + arg + ")"})
						return false
					}
				}
				return true
			})
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
		var b strings.Builder
		p := 0
		for _, e := range edits {
			b.Write(f.src[p:e.from])
			b.WriteString(e.text)
			p = e.to
		}
		b.Write(f.src[p:])
		keep := map[string]string{"unsafe": "unsafe.Sizeof(0)", "syscall": "syscall.Getpid", "reflect": "reflect.TypeOf"}
		for _, im := range f.f.Imports {
			if k, ok := keep[strings.Trim(im.Path.Value, "\"")]; ok && im.Name == nil {
				b.WriteString("\nvar _ = " + k + "\n")
			}
		}
		n := "verifwin_" + strings.TrimSuffix(strings.TrimSuffix(f.name, ".go"), "_windows") + ".go"
		out := filepath.Join(outDir, n)
		if err := os.WriteFile(out, []byte(b.String()), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(dir, n)] = out
	}
	out := filepath.Join(outDir, "verifwin_stub.go")
	if err := os.WriteFile(out, sb, 0o644); err != nil {
		return err
	}
	overlay[filepath.Join(dir, "verifwin_stub.go")] = out
	j, _ := json.Marshal(overlay)
	fmt.Println(string(j))
	return nil
}

// funcName is the name of a function, with its receiver's type.
func funcName(d *ast.FuncDecl) string {
	if d.Recv == nil || len(d.Recv.List) == 0 {
		return d.Name.Name
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name + "." + d.Name.Name
	}
	return d.Name.Name
}

func declared(f *ast.File) map[string]bool {
	names := map[string]bool{}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			names[funcName(x)] = true
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					names[y.Name.Name] = true
				case *ast.ValueSpec:
					for _, id := range y.Names {
						if id.Name != "_" {
							names[id.Name] = true
						}
					}
				}
			}
		}
	}
	return names
}

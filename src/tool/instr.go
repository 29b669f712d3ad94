package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const simImport = "runtime"

// instrument returns src with a potential context switch in front of every
// statement. Insertions are textual and on the same line, so positions in
// stack traces and race reports stay valid. Files that use cgo are left alone.
func instrument(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return src, 0, nil
		}
	}
	var at []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			add(b.List)
		case *ast.CaseClause:
			add(b.Body)
		case *ast.CommClause:
			add(b.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, 0, nil
	}
	rename, wrapper := hashcode(fset, f)
	sort.Ints(at)
	var out bytes.Buffer
	pkgEnd := fset.Position(f.Name.End()).Offset
	out.Write(src[:pkgEnd])
	fmt.Fprintf(&out, "; import zzsim %q", simImport)
	last := pkgEnd
	for _, o := range at {
		if rename > last && rename < o {
			out.Write(src[last:rename])
			out.WriteString("zz")
			last = rename
		}
		out.Write(src[last:o])
		out.WriteString("zzsim.ZZY(); ")
		last = o
	}
	out.Write(src[last:])
	out.WriteString(wrapper)
	return out.Bytes(), len(at), nil
}

// hashcode finds the method that gives the hash code of a node. It is renamed
// by a prefix; the wrapper that takes its place lets codes coincide.
func hashcode(fset *token.FileSet, f *ast.File) (rename int, wrapper string) {
	if f.Name.Name != "gorgonia" {
		return -1, ""
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Name.Name != "Hashcode" || fn.Recv == nil || fn.Body == nil || len(fn.Body.List) == 0 {
			continue
		}
		p, ok := fn.Recv.List[0].Type.(*ast.StarExpr)
		if !ok {
			continue
		}
		if t, ok := p.X.(*ast.Ident); !ok || t.Name != "Node" {
			continue
		}
		if r := fn.Type.Results; r == nil || len(r.List) != 1 || len(fn.Type.Params.List) != 0 {
			continue
		} else if t, ok := r.List[0].Type.(*ast.Ident); !ok || t.Name != "uint32" {
			continue
		}
		return fset.Position(fn.Name.Pos()).Offset, "\nfunc (n *Node) Hashcode() uint32 { return zzsim.ZZHash(n.zzHashcode()) }\n"
	}
	return -1, ""
}

// skipDirs are not part of the default build (CUDA) or are programs.
func skipDir(rel string) bool {
	if variant == "device" && rel == "cuda" {
		return false
	}
	if rel == "examples" || rel == "examples/mnist" {
		return false
	}
	for _, p := range []string{"cuda", "cmd", "examples", "zzverif", ".git", "media", "vendor", "testdata"} {
		if rel == p || strings.HasPrefix(rel, p+"/") {
			return true
		}
	}
	return false
}

// instrumentRepo instruments every non-test Go file of the repository.
func instrumentRepo(repo, dir string) (map[string]string, int, error) {
	repl := map[string]string{}
	total := 0
	err := filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if info.IsDir() {
			if rel != "." && skipDir(rel) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out, n, err := instrument(path, src)
		if err != nil {
			return err
		}
		if strings.HasPrefix(rel, "cuda/") {
			// the device library is replaced by an imitation
			if n == 0 {
				out = src
			}
			n++
			out = bytes.ReplaceAll(out, []byte(`"gorgonia.org/cu`), []byte(`"gorgonia.org/gorgonia/zzverif/cu`))
		}
		if n == 0 {
			return nil
		}
		total += n
		dst := filepath.Join(dir, strings.ReplaceAll(rel, "/", "__"))
		if err := writeIfChanged(dst, out); err != nil {
			return err
		}
		repl[path] = dst
		return nil
	})
	return repl, total, err
}

func writeIfChanged(path string, b []byte) error {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		return err
	}
	tmp := path + fmt.Sprintf(".tmp%d", os.Getpid())
	if err := os.WriteFile(tmp, b, 0644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}
